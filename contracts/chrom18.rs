// written by tools/mkchrom.py
pub mod stop_loss { use super::*;
pub mod basic { use super::*;
/*@struct juno/src/stop_loss/basic.rs BasicParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::basic BasicParamsContext
@*/
/*@fn juno/src/stop_loss/basic.rs up_threshold
flag: extern
@*/
/*@fn juno/src/stop_loss/basic.rs down_threshold
flag: extern
@*/
impl Chromosome for BasicParams {
    type Context = BasicParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (BasicParams { up_threshold: b.up_threshold, ..a }, BasicParams { up_threshold: a.up_threshold, ..b }) } else if i == 0int + 1 { (BasicParams { down_threshold: b.down_threshold, ..a }, BasicParams { down_threshold: a.down_threshold, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.down_threshold == b.down_threshold } else if i == 0int + 1 { a.up_threshold == b.up_threshold } else { a == b } }
    open spec fn usable(c: BasicParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.up_threshold == a.up_threshold);
        assert(Self::g_cross(a, b, 0int + 1).0.down_threshold == a.down_threshold);
        }
/*@fn expanded:stop_loss::basic BasicParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::basic BasicParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:stop_loss::basic BasicParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss::basic BasicParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use basic::{BasicParams, BasicParamsContext};
pub mod trailing { use super::*;
/*@struct juno/src/stop_loss/trailing.rs TrailingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::trailing TrailingParamsContext
@*/
/*@fn juno/src/stop_loss/trailing.rs up_threshold
flag: extern
@*/
/*@fn juno/src/stop_loss/trailing.rs down_threshold
flag: extern
@*/
impl Chromosome for TrailingParams {
    type Context = TrailingParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (TrailingParams { up_threshold: b.up_threshold, ..a }, TrailingParams { up_threshold: a.up_threshold, ..b }) } else if i == 0int + 1 { (TrailingParams { down_threshold: b.down_threshold, ..a }, TrailingParams { down_threshold: a.down_threshold, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.down_threshold == b.down_threshold } else if i == 0int + 1 { a.up_threshold == b.up_threshold } else { a == b } }
    open spec fn usable(c: TrailingParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.up_threshold == a.up_threshold);
        assert(Self::g_cross(a, b, 0int + 1).0.down_threshold == a.down_threshold);
        }
/*@fn expanded:stop_loss::trailing TrailingParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::trailing TrailingParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:stop_loss::trailing TrailingParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss::trailing TrailingParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use trailing::{TrailingParams, TrailingParamsContext};
pub mod basic_plus_trailing { use super::*;
/*@struct juno/src/stop_loss/basic_plus_trailing.rs BasicPlusTrailingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParamsContext
@*/
impl Chromosome for BasicPlusTrailingParams {
    type Context = BasicPlusTrailingParamsContext;
    open spec fn g_len() -> nat { BasicParams::g_len() + TrailingParams::g_len() + 0nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i < 0int + BasicParams::g_len() { let r = BasicParams::g_cross(a.basic, b.basic, i - (0int)); (BasicPlusTrailingParams { basic: r.0, ..a }, BasicPlusTrailingParams { basic: r.1, ..b }) } else if i < 0int + BasicParams::g_len() + TrailingParams::g_len() { let r = TrailingParams::g_cross(a.trailing, b.trailing, i - (0int + BasicParams::g_len())); (BasicPlusTrailingParams { trailing: r.0, ..a }, BasicPlusTrailingParams { trailing: r.1, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i < 0int + BasicParams::g_len() { BasicParams::same_but(a.basic, b.basic, i - (0int)) && a.trailing == b.trailing } else if i < 0int + BasicParams::g_len() + TrailingParams::g_len() { TrailingParams::same_but(a.trailing, b.trailing, i - (0int + BasicParams::g_len())) && a.basic == b.basic } else { a == b } }
    open spec fn usable(c: BasicPlusTrailingParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) { BasicParams::g_refl(a.basic, i - (0int)); TrailingParams::g_refl(a.trailing, i - (0int + BasicParams::g_len()));  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if 0int <= i < 0int + BasicParams::g_len() { BasicParams::g_laws(a.basic, b.basic, i - (0int)); }
        if 0int + BasicParams::g_len() <= i < 0int + BasicParams::g_len() + TrailingParams::g_len() { TrailingParams::g_laws(a.trailing, b.trailing, i - (0int + BasicParams::g_len())); }
        }
    proof fn g_whole(a: Self, b: Self) {
        assert forall|i: int| 0 <= i < BasicParams::g_len() implies #[trigger] BasicParams::g_cross(a.basic, b.basic, i) == (a.basic, b.basic) by { let q = Self::g_cross(a, b, 0int + i); assert(q == (a, b)); assert(q.0.basic == a.basic && q.1.basic == b.basic); }
        BasicParams::g_whole(a.basic, b.basic);
        assert forall|i: int| 0 <= i < TrailingParams::g_len() implies #[trigger] TrailingParams::g_cross(a.trailing, b.trailing, i) == (a.trailing, b.trailing) by { let q = Self::g_cross(a, b, 0int + BasicParams::g_len() + i); assert(q == (a, b)); assert(q.0.trailing == a.trailing && q.1.trailing == b.trailing); }
        TrailingParams::g_whole(a.trailing, b.trailing);
        }
/*@fn expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss::basic_plus_trailing BasicPlusTrailingParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use basic_plus_trailing::{BasicPlusTrailingParams, BasicPlusTrailingParamsContext};
pub mod legacy { use super::*;
/*@struct juno/src/stop_loss/legacy.rs LegacyParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::legacy LegacyParamsContext
@*/
/*@fn juno/src/stop_loss/legacy.rs threshold
flag: extern
@*/
/*@fn juno/src/stop_loss/legacy.rs trail
flag: extern
@*/
impl Chromosome for LegacyParams {
    type Context = LegacyParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (LegacyParams { threshold: b.threshold, ..a }, LegacyParams { threshold: a.threshold, ..b }) } else if i == 0int + 1 { (LegacyParams { trail: b.trail, ..a }, LegacyParams { trail: a.trail, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.trail == b.trail } else if i == 0int + 1 { a.threshold == b.threshold } else { a == b } }
    open spec fn usable(c: LegacyParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.threshold == a.threshold);
        assert(Self::g_cross(a, b, 0int + 1).0.trail == a.trail);
        }
/*@fn expanded:stop_loss::legacy LegacyParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::legacy LegacyParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:stop_loss::legacy LegacyParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss::legacy LegacyParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use legacy::{LegacyParams, LegacyParamsContext};
pub mod noop { use super::*;
/*@struct juno/src/stop_loss/noop.rs NoopParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:stop_loss::noop NoopParamsContext
@*/
impl Chromosome for NoopParams {
    type Context = NoopParamsContext;
    open spec fn g_len() -> nat { 0nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { { a == b } }
    open spec fn usable(c: NoopParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        }
/*@fn expanded:stop_loss::noop NoopParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss::noop NoopParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:stop_loss::noop NoopParams::Chromosome::cross
flag: novis
flag: uncallable
@*/
/*@fn expanded:stop_loss::noop NoopParams::Chromosome::mutate
flag: novis
flag: uncallable
@*/
}
}
pub use noop::{NoopParams, NoopParamsContext};
/*@enum juno/src/stop_loss/mod.rs StopLossParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:stop_loss StopLossParamsContext
@*/
impl Tagged for StopLossParams { open spec fn tag(&self) -> int { match *self { StopLossParams::BasicPlusTrailing(_) => 0int, StopLossParams::Basic(_) => 1int, StopLossParams::Legacy(_) => 2int, StopLossParams::Noop(_) => 3int, StopLossParams::Trailing(_) => 4int, } } }
impl StopLossParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { StopLossParams::BasicPlusTrailing(_) => BasicPlusTrailingParams::g_len(), StopLossParams::Basic(_) => BasicParams::g_len(), StopLossParams::Legacy(_) => LegacyParams::g_len(), StopLossParams::Noop(_) => NoopParams::g_len(), StopLossParams::Trailing(_) => TrailingParams::g_len(), } }
/*@fn expanded:stop_loss StopLossParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_BASIC_PLUS_TRAILING_CTX => DEFAULT_STOP_LOSS_PARAMS_BASIC_PLUS_TRAILING_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_BASIC_PLUS_TRAILING_CTX_X() -> (r: &'static BasicPlusTrailingParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_BASIC_CTX => DEFAULT_STOP_LOSS_PARAMS_BASIC_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_BASIC_CTX_X() -> (r: &'static BasicParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_LEGACY_CTX => DEFAULT_STOP_LOSS_PARAMS_LEGACY_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_LEGACY_CTX_X() -> (r: &'static LegacyParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_NOOP_CTX => DEFAULT_STOP_LOSS_PARAMS_NOOP_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_NOOP_CTX_X() -> (r: &'static NoopParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STOP_LOSS_PARAMS_TRAILING_CTX => DEFAULT_STOP_LOSS_PARAMS_TRAILING_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STOP_LOSS_PARAMS_TRAILING_CTX_X() -> (r: &'static TrailingParamsContext) { unimplemented!() }
impl StopLossParamsContext {
/*@fn expanded:stop_loss StopLossParamsContext::basicplustrailing
@*/
/*@fn expanded:stop_loss StopLossParamsContext::basic
@*/
/*@fn expanded:stop_loss StopLossParamsContext::legacy
@*/
/*@fn expanded:stop_loss StopLossParamsContext::noop
@*/
/*@fn expanded:stop_loss StopLossParamsContext::trailing
@*/
}
impl Chromosome for StopLossParams {
    type Context = StopLossParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(BasicPlusTrailingParams::g_len(), nmax(BasicParams::g_len(), nmax(LegacyParams::g_len(), nmax(NoopParams::g_len(), TrailingParams::g_len())))) }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0 { (b, a) } else { match (a, b) { (StopLossParams::BasicPlusTrailing(x), StopLossParams::BasicPlusTrailing(y)) => if i - 1 < BasicPlusTrailingParams::g_len() { let r = BasicPlusTrailingParams::g_cross(x, y, i - 1); (StopLossParams::BasicPlusTrailing(r.0), StopLossParams::BasicPlusTrailing(r.1)) } else { (a, b) }, (StopLossParams::Basic(x), StopLossParams::Basic(y)) => if i - 1 < BasicParams::g_len() { let r = BasicParams::g_cross(x, y, i - 1); (StopLossParams::Basic(r.0), StopLossParams::Basic(r.1)) } else { (a, b) }, (StopLossParams::Legacy(x), StopLossParams::Legacy(y)) => if i - 1 < LegacyParams::g_len() { let r = LegacyParams::g_cross(x, y, i - 1); (StopLossParams::Legacy(r.0), StopLossParams::Legacy(r.1)) } else { (a, b) }, (StopLossParams::Noop(x), StopLossParams::Noop(y)) => if i - 1 < NoopParams::g_len() { let r = NoopParams::g_cross(x, y, i - 1); (StopLossParams::Noop(r.0), StopLossParams::Noop(r.1)) } else { (a, b) }, (StopLossParams::Trailing(x), StopLossParams::Trailing(y)) => if i - 1 < TrailingParams::g_len() { let r = TrailingParams::g_cross(x, y, i - 1); (StopLossParams::Trailing(r.0), StopLossParams::Trailing(r.1)) } else { (a, b) }, _ => (a, b) } } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0 { true } else { match (a, b) { (StopLossParams::BasicPlusTrailing(x), StopLossParams::BasicPlusTrailing(y)) => if i - 1 < BasicPlusTrailingParams::g_len() { BasicPlusTrailingParams::same_but(x, y, i - 1) } else { x == y }, (StopLossParams::Basic(x), StopLossParams::Basic(y)) => if i - 1 < BasicParams::g_len() { BasicParams::same_but(x, y, i - 1) } else { x == y }, (StopLossParams::Legacy(x), StopLossParams::Legacy(y)) => if i - 1 < LegacyParams::g_len() { LegacyParams::same_but(x, y, i - 1) } else { x == y }, (StopLossParams::Noop(x), StopLossParams::Noop(y)) => if i - 1 < NoopParams::g_len() { NoopParams::same_but(x, y, i - 1) } else { x == y }, (StopLossParams::Trailing(x), StopLossParams::Trailing(y)) => if i - 1 < TrailingParams::g_len() { TrailingParams::same_but(x, y, i - 1) } else { x == y }, _ => false } } }
    open spec fn usable(c: StopLossParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) { match a { StopLossParams::BasicPlusTrailing(x) => BasicPlusTrailingParams::g_refl(x, i - 1), StopLossParams::Basic(x) => BasicParams::g_refl(x, i - 1), StopLossParams::Legacy(x) => LegacyParams::g_refl(x, i - 1), StopLossParams::Noop(x) => NoopParams::g_refl(x, i - 1), StopLossParams::Trailing(x) => TrailingParams::g_refl(x, i - 1), } }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if i > 0 { match (a, b) { (StopLossParams::BasicPlusTrailing(x), StopLossParams::BasicPlusTrailing(y)) => { if i - 1 < BasicPlusTrailingParams::g_len() { BasicPlusTrailingParams::g_laws(x, y, i - 1); } } (StopLossParams::Basic(x), StopLossParams::Basic(y)) => { if i - 1 < BasicParams::g_len() { BasicParams::g_laws(x, y, i - 1); } } (StopLossParams::Legacy(x), StopLossParams::Legacy(y)) => { if i - 1 < LegacyParams::g_len() { LegacyParams::g_laws(x, y, i - 1); } } (StopLossParams::Noop(x), StopLossParams::Noop(y)) => { if i - 1 < NoopParams::g_len() { NoopParams::g_laws(x, y, i - 1); } } (StopLossParams::Trailing(x), StopLossParams::Trailing(y)) => { if i - 1 < TrailingParams::g_len() { TrailingParams::g_laws(x, y, i - 1); } } _ => {} } }
        Self::g_refl(a, i); Self::g_refl(b, i);
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0) == (a, b));
        }
/*@fn expanded:stop_loss StopLossParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:stop_loss StopLossParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:stop_loss StopLossParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:stop_loss StopLossParams::Chromosome::mutate
flag: novis
@*/
}
}
pub mod take_profit { use super::*;
pub mod basic { use super::*;
/*@struct juno/src/take_profit/basic.rs BasicParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:take_profit::basic BasicParamsContext
@*/
/*@fn juno/src/take_profit/basic.rs up_threshold
flag: extern
@*/
/*@fn juno/src/take_profit/basic.rs down_threshold
flag: extern
@*/
impl Chromosome for BasicParams {
    type Context = BasicParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (BasicParams { up_threshold: b.up_threshold, ..a }, BasicParams { up_threshold: a.up_threshold, ..b }) } else if i == 0int + 1 { (BasicParams { down_threshold: b.down_threshold, ..a }, BasicParams { down_threshold: a.down_threshold, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.down_threshold == b.down_threshold } else if i == 0int + 1 { a.up_threshold == b.up_threshold } else { a == b } }
    open spec fn usable(c: BasicParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.up_threshold == a.up_threshold);
        assert(Self::g_cross(a, b, 0int + 1).0.down_threshold == a.down_threshold);
        }
/*@fn expanded:take_profit::basic BasicParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit::basic BasicParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:take_profit::basic BasicParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:take_profit::basic BasicParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use basic::{BasicParams, BasicParamsContext};
pub mod legacy { use super::*;
/*@struct juno/src/take_profit/legacy.rs LegacyParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:take_profit::legacy LegacyParamsContext
@*/
/*@fn juno/src/take_profit/legacy.rs threshold
flag: extern
@*/
impl Chromosome for LegacyParams {
    type Context = LegacyParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (LegacyParams { threshold: b.threshold, ..a }, LegacyParams { threshold: a.threshold, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { true } else { a == b } }
    open spec fn usable(c: LegacyParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.threshold == a.threshold);
        }
/*@fn expanded:take_profit::legacy LegacyParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit::legacy LegacyParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:take_profit::legacy LegacyParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:take_profit::legacy LegacyParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use legacy::{LegacyParams, LegacyParamsContext};
pub mod noop { use super::*;
/*@struct juno/src/take_profit/noop.rs NoopParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:take_profit::noop NoopParamsContext
@*/
impl Chromosome for NoopParams {
    type Context = NoopParamsContext;
    open spec fn g_len() -> nat { 0nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { { a == b } }
    open spec fn usable(c: NoopParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        }
/*@fn expanded:take_profit::noop NoopParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit::noop NoopParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:take_profit::noop NoopParams::Chromosome::cross
flag: novis
flag: uncallable
@*/
/*@fn expanded:take_profit::noop NoopParams::Chromosome::mutate
flag: novis
flag: uncallable
@*/
}
}
pub use noop::{NoopParams, NoopParamsContext};
pub mod trending { use super::*;
/*@struct juno/src/take_profit/trending.rs TrendingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:take_profit::trending TrendingParamsContext
@*/
/*@fn juno/src/take_profit/trending.rs up_thresholds
flag: extern
@*/
/*@fn juno/src/take_profit/trending.rs down_thresholds
flag: extern
@*/
/*@fn juno/src/take_profit/trending.rs period
flag: extern
@*/
/*@fn juno/src/take_profit/trending.rs lock_threshold
flag: extern
@*/
/*@fn juno/src/take_profit/trending.rs easing
flag: extern
@*/
impl Chromosome for TrendingParams {
    type Context = TrendingParamsContext;
    open spec fn g_len() -> nat { 5nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (TrendingParams { up_thresholds: b.up_thresholds, ..a }, TrendingParams { up_thresholds: a.up_thresholds, ..b }) } else if i == 0int + 1 { (TrendingParams { down_thresholds: b.down_thresholds, ..a }, TrendingParams { down_thresholds: a.down_thresholds, ..b }) } else if i == 0int + 2 { (TrendingParams { period: b.period, ..a }, TrendingParams { period: a.period, ..b }) } else if i == 0int + 3 { (TrendingParams { lock_threshold: b.lock_threshold, ..a }, TrendingParams { lock_threshold: a.lock_threshold, ..b }) } else if i == 0int + 4 { (TrendingParams { easing: b.easing, ..a }, TrendingParams { easing: a.easing, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.down_thresholds == b.down_thresholds && a.period == b.period && a.lock_threshold == b.lock_threshold && a.easing == b.easing } else if i == 0int + 1 { a.up_thresholds == b.up_thresholds && a.period == b.period && a.lock_threshold == b.lock_threshold && a.easing == b.easing } else if i == 0int + 2 { a.up_thresholds == b.up_thresholds && a.down_thresholds == b.down_thresholds && a.lock_threshold == b.lock_threshold && a.easing == b.easing } else if i == 0int + 3 { a.up_thresholds == b.up_thresholds && a.down_thresholds == b.down_thresholds && a.period == b.period && a.easing == b.easing } else if i == 0int + 4 { a.up_thresholds == b.up_thresholds && a.down_thresholds == b.down_thresholds && a.period == b.period && a.lock_threshold == b.lock_threshold } else { a == b } }
    open spec fn usable(c: TrendingParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.up_thresholds == a.up_thresholds);
        assert(Self::g_cross(a, b, 0int + 1).0.down_thresholds == a.down_thresholds);
        assert(Self::g_cross(a, b, 0int + 2).0.period == a.period);
        assert(Self::g_cross(a, b, 0int + 3).0.lock_threshold == a.lock_threshold);
        assert(Self::g_cross(a, b, 0int + 4).0.easing == a.easing);
        }
/*@fn expanded:take_profit::trending TrendingParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit::trending TrendingParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:take_profit::trending TrendingParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:take_profit::trending TrendingParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use trending::{TrendingParams, TrendingParamsContext};
/*@enum juno/src/take_profit/mod.rs TakeProfitParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:take_profit TakeProfitParamsContext
@*/
impl Tagged for TakeProfitParams { open spec fn tag(&self) -> int { match *self { TakeProfitParams::Basic(_) => 0int, TakeProfitParams::Legacy(_) => 1int, TakeProfitParams::Noop(_) => 2int, TakeProfitParams::Trending(_) => 3int, } } }
impl TakeProfitParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { TakeProfitParams::Basic(_) => BasicParams::g_len(), TakeProfitParams::Legacy(_) => LegacyParams::g_len(), TakeProfitParams::Noop(_) => NoopParams::g_len(), TakeProfitParams::Trending(_) => TrendingParams::g_len(), } }
/*@fn expanded:take_profit TakeProfitParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_TAKE_PROFIT_PARAMS_BASIC_CTX => DEFAULT_TAKE_PROFIT_PARAMS_BASIC_CTX_X()
#[verifier::external_body] pub fn DEFAULT_TAKE_PROFIT_PARAMS_BASIC_CTX_X() -> (r: &'static BasicParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_TAKE_PROFIT_PARAMS_LEGACY_CTX => DEFAULT_TAKE_PROFIT_PARAMS_LEGACY_CTX_X()
#[verifier::external_body] pub fn DEFAULT_TAKE_PROFIT_PARAMS_LEGACY_CTX_X() -> (r: &'static LegacyParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_TAKE_PROFIT_PARAMS_NOOP_CTX => DEFAULT_TAKE_PROFIT_PARAMS_NOOP_CTX_X()
#[verifier::external_body] pub fn DEFAULT_TAKE_PROFIT_PARAMS_NOOP_CTX_X() -> (r: &'static NoopParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_TAKE_PROFIT_PARAMS_TRENDING_CTX => DEFAULT_TAKE_PROFIT_PARAMS_TRENDING_CTX_X()
#[verifier::external_body] pub fn DEFAULT_TAKE_PROFIT_PARAMS_TRENDING_CTX_X() -> (r: &'static TrendingParamsContext) { unimplemented!() }
impl TakeProfitParamsContext {
/*@fn expanded:take_profit TakeProfitParamsContext::basic
@*/
/*@fn expanded:take_profit TakeProfitParamsContext::legacy
@*/
/*@fn expanded:take_profit TakeProfitParamsContext::noop
@*/
/*@fn expanded:take_profit TakeProfitParamsContext::trending
@*/
}
impl Chromosome for TakeProfitParams {
    type Context = TakeProfitParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(BasicParams::g_len(), nmax(LegacyParams::g_len(), nmax(NoopParams::g_len(), TrendingParams::g_len()))) }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0 { (b, a) } else { match (a, b) { (TakeProfitParams::Basic(x), TakeProfitParams::Basic(y)) => if i - 1 < BasicParams::g_len() { let r = BasicParams::g_cross(x, y, i - 1); (TakeProfitParams::Basic(r.0), TakeProfitParams::Basic(r.1)) } else { (a, b) }, (TakeProfitParams::Legacy(x), TakeProfitParams::Legacy(y)) => if i - 1 < LegacyParams::g_len() { let r = LegacyParams::g_cross(x, y, i - 1); (TakeProfitParams::Legacy(r.0), TakeProfitParams::Legacy(r.1)) } else { (a, b) }, (TakeProfitParams::Noop(x), TakeProfitParams::Noop(y)) => if i - 1 < NoopParams::g_len() { let r = NoopParams::g_cross(x, y, i - 1); (TakeProfitParams::Noop(r.0), TakeProfitParams::Noop(r.1)) } else { (a, b) }, (TakeProfitParams::Trending(x), TakeProfitParams::Trending(y)) => if i - 1 < TrendingParams::g_len() { let r = TrendingParams::g_cross(x, y, i - 1); (TakeProfitParams::Trending(r.0), TakeProfitParams::Trending(r.1)) } else { (a, b) }, _ => (a, b) } } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0 { true } else { match (a, b) { (TakeProfitParams::Basic(x), TakeProfitParams::Basic(y)) => if i - 1 < BasicParams::g_len() { BasicParams::same_but(x, y, i - 1) } else { x == y }, (TakeProfitParams::Legacy(x), TakeProfitParams::Legacy(y)) => if i - 1 < LegacyParams::g_len() { LegacyParams::same_but(x, y, i - 1) } else { x == y }, (TakeProfitParams::Noop(x), TakeProfitParams::Noop(y)) => if i - 1 < NoopParams::g_len() { NoopParams::same_but(x, y, i - 1) } else { x == y }, (TakeProfitParams::Trending(x), TakeProfitParams::Trending(y)) => if i - 1 < TrendingParams::g_len() { TrendingParams::same_but(x, y, i - 1) } else { x == y }, _ => false } } }
    open spec fn usable(c: TakeProfitParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) { match a { TakeProfitParams::Basic(x) => BasicParams::g_refl(x, i - 1), TakeProfitParams::Legacy(x) => LegacyParams::g_refl(x, i - 1), TakeProfitParams::Noop(x) => NoopParams::g_refl(x, i - 1), TakeProfitParams::Trending(x) => TrendingParams::g_refl(x, i - 1), } }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if i > 0 { match (a, b) { (TakeProfitParams::Basic(x), TakeProfitParams::Basic(y)) => { if i - 1 < BasicParams::g_len() { BasicParams::g_laws(x, y, i - 1); } } (TakeProfitParams::Legacy(x), TakeProfitParams::Legacy(y)) => { if i - 1 < LegacyParams::g_len() { LegacyParams::g_laws(x, y, i - 1); } } (TakeProfitParams::Noop(x), TakeProfitParams::Noop(y)) => { if i - 1 < NoopParams::g_len() { NoopParams::g_laws(x, y, i - 1); } } (TakeProfitParams::Trending(x), TakeProfitParams::Trending(y)) => { if i - 1 < TrendingParams::g_len() { TrendingParams::g_laws(x, y, i - 1); } } _ => {} } }
        Self::g_refl(a, i); Self::g_refl(b, i);
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0) == (a, b));
        }
/*@fn expanded:take_profit TakeProfitParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:take_profit TakeProfitParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:take_profit TakeProfitParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:take_profit TakeProfitParams::Chromosome::mutate
flag: novis
@*/
}
}
pub mod strategies { use super::*;
/*@enum juno/src/strategies/sig_osc.rs OscFilter
attr:
    #[derive(Clone, Copy)]
@*/
pub mod double_ma { use super::*;
/*@struct juno/src/strategies/double_ma.rs DoubleMAParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::double_ma DoubleMAParamsContext
@*/
/*@fn juno/src/strategies/double_ma.rs mas
flag: extern
@*/
impl Chromosome for DoubleMAParams {
    type Context = DoubleMAParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (DoubleMAParams { mas: b.mas, ..a }, DoubleMAParams { mas: a.mas, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { true } else { a == b } }
    open spec fn usable(c: DoubleMAParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.mas == a.mas);
        }
/*@fn expanded:strategies::double_ma DoubleMAParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::double_ma DoubleMAParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::double_ma DoubleMAParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::double_ma DoubleMAParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use double_ma::{DoubleMAParams, DoubleMAParamsContext};
pub mod double_ma_2 { use super::*;
/*@struct juno/src/strategies/double_ma_2.rs DoubleMA2Params
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::double_ma_2 DoubleMA2ParamsContext
@*/
/*@fn juno/src/strategies/double_ma_2.rs neg_threshold
flag: extern
@*/
/*@fn juno/src/strategies/double_ma_2.rs pos_threshold
flag: extern
@*/
/*@fn juno/src/strategies/double_ma_2.rs mas
flag: extern
@*/
impl Chromosome for DoubleMA2Params {
    type Context = DoubleMA2ParamsContext;
    open spec fn g_len() -> nat { 3nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (DoubleMA2Params { neg_threshold: b.neg_threshold, ..a }, DoubleMA2Params { neg_threshold: a.neg_threshold, ..b }) } else if i == 0int + 1 { (DoubleMA2Params { pos_threshold: b.pos_threshold, ..a }, DoubleMA2Params { pos_threshold: a.pos_threshold, ..b }) } else if i == 0int + 2 { (DoubleMA2Params { mas: b.mas, ..a }, DoubleMA2Params { mas: a.mas, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.pos_threshold == b.pos_threshold && a.mas == b.mas } else if i == 0int + 1 { a.neg_threshold == b.neg_threshold && a.mas == b.mas } else if i == 0int + 2 { a.neg_threshold == b.neg_threshold && a.pos_threshold == b.pos_threshold } else { a == b } }
    open spec fn usable(c: DoubleMA2ParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.neg_threshold == a.neg_threshold);
        assert(Self::g_cross(a, b, 0int + 1).0.pos_threshold == a.pos_threshold);
        assert(Self::g_cross(a, b, 0int + 2).0.mas == a.mas);
        }
/*@fn expanded:strategies::double_ma_2 DoubleMA2Params::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::double_ma_2 DoubleMA2Params::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::double_ma_2 DoubleMA2Params::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::double_ma_2 DoubleMA2Params::Chromosome::mutate
flag: novis
@*/
}
}
pub use double_ma_2::{DoubleMA2Params, DoubleMA2ParamsContext};
pub mod stoch { use super::*;
/*@struct juno/src/strategies/stoch.rs StochParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::stoch StochParamsContext
@*/
/*@fn juno/src/strategies/stoch.rs k_period
flag: extern
@*/
/*@fn juno/src/strategies/stoch.rs k_sma_period
flag: extern
@*/
/*@fn juno/src/strategies/stoch.rs d_sma_period
flag: extern
@*/
/*@fn juno/src/strategies/stoch.rs up_threshold
flag: extern
@*/
/*@fn juno/src/strategies/stoch.rs down_threshold
flag: extern
@*/
impl Chromosome for StochParams {
    type Context = StochParamsContext;
    open spec fn g_len() -> nat { 5nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (StochParams { k_period: b.k_period, ..a }, StochParams { k_period: a.k_period, ..b }) } else if i == 0int + 1 { (StochParams { k_sma_period: b.k_sma_period, ..a }, StochParams { k_sma_period: a.k_sma_period, ..b }) } else if i == 0int + 2 { (StochParams { d_sma_period: b.d_sma_period, ..a }, StochParams { d_sma_period: a.d_sma_period, ..b }) } else if i == 0int + 3 { (StochParams { up_threshold: b.up_threshold, ..a }, StochParams { up_threshold: a.up_threshold, ..b }) } else if i == 0int + 4 { (StochParams { down_threshold: b.down_threshold, ..a }, StochParams { down_threshold: a.down_threshold, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.k_sma_period == b.k_sma_period && a.d_sma_period == b.d_sma_period && a.up_threshold == b.up_threshold && a.down_threshold == b.down_threshold } else if i == 0int + 1 { a.k_period == b.k_period && a.d_sma_period == b.d_sma_period && a.up_threshold == b.up_threshold && a.down_threshold == b.down_threshold } else if i == 0int + 2 { a.k_period == b.k_period && a.k_sma_period == b.k_sma_period && a.up_threshold == b.up_threshold && a.down_threshold == b.down_threshold } else if i == 0int + 3 { a.k_period == b.k_period && a.k_sma_period == b.k_sma_period && a.d_sma_period == b.d_sma_period && a.down_threshold == b.down_threshold } else if i == 0int + 4 { a.k_period == b.k_period && a.k_sma_period == b.k_sma_period && a.d_sma_period == b.d_sma_period && a.up_threshold == b.up_threshold } else { a == b } }
    open spec fn usable(c: StochParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.k_period == a.k_period);
        assert(Self::g_cross(a, b, 0int + 1).0.k_sma_period == a.k_sma_period);
        assert(Self::g_cross(a, b, 0int + 2).0.d_sma_period == a.d_sma_period);
        assert(Self::g_cross(a, b, 0int + 3).0.up_threshold == a.up_threshold);
        assert(Self::g_cross(a, b, 0int + 4).0.down_threshold == a.down_threshold);
        }
/*@fn expanded:strategies::stoch StochParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::stoch StochParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::stoch StochParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::stoch StochParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use stoch::{StochParams, StochParamsContext};
pub mod double_ma_stoch { use super::*;
/*@struct juno/src/strategies/double_ma_stoch.rs DoubleMAStochParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::double_ma_stoch DoubleMAStochParamsContext
@*/
impl Chromosome for DoubleMAStochParams {
    type Context = DoubleMAStochParamsContext;
    open spec fn g_len() -> nat { DoubleMAParams::g_len() + StochParams::g_len() + 0nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i < 0int + DoubleMAParams::g_len() { let r = DoubleMAParams::g_cross(a.double_ma, b.double_ma, i - (0int)); (DoubleMAStochParams { double_ma: r.0, ..a }, DoubleMAStochParams { double_ma: r.1, ..b }) } else if i < 0int + DoubleMAParams::g_len() + StochParams::g_len() { let r = StochParams::g_cross(a.stoch, b.stoch, i - (0int + DoubleMAParams::g_len())); (DoubleMAStochParams { stoch: r.0, ..a }, DoubleMAStochParams { stoch: r.1, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i < 0int + DoubleMAParams::g_len() { DoubleMAParams::same_but(a.double_ma, b.double_ma, i - (0int)) && a.stoch == b.stoch } else if i < 0int + DoubleMAParams::g_len() + StochParams::g_len() { StochParams::same_but(a.stoch, b.stoch, i - (0int + DoubleMAParams::g_len())) && a.double_ma == b.double_ma } else { a == b } }
    open spec fn usable(c: DoubleMAStochParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) { DoubleMAParams::g_refl(a.double_ma, i - (0int)); StochParams::g_refl(a.stoch, i - (0int + DoubleMAParams::g_len()));  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if 0int <= i < 0int + DoubleMAParams::g_len() { DoubleMAParams::g_laws(a.double_ma, b.double_ma, i - (0int)); }
        if 0int + DoubleMAParams::g_len() <= i < 0int + DoubleMAParams::g_len() + StochParams::g_len() { StochParams::g_laws(a.stoch, b.stoch, i - (0int + DoubleMAParams::g_len())); }
        }
    proof fn g_whole(a: Self, b: Self) {
        assert forall|i: int| 0 <= i < DoubleMAParams::g_len() implies #[trigger] DoubleMAParams::g_cross(a.double_ma, b.double_ma, i) == (a.double_ma, b.double_ma) by { let q = Self::g_cross(a, b, 0int + i); assert(q == (a, b)); assert(q.0.double_ma == a.double_ma && q.1.double_ma == b.double_ma); }
        DoubleMAParams::g_whole(a.double_ma, b.double_ma);
        assert forall|i: int| 0 <= i < StochParams::g_len() implies #[trigger] StochParams::g_cross(a.stoch, b.stoch, i) == (a.stoch, b.stoch) by { let q = Self::g_cross(a, b, 0int + DoubleMAParams::g_len() + i); assert(q == (a, b)); assert(q.0.stoch == a.stoch && q.1.stoch == b.stoch); }
        StochParams::g_whole(a.stoch, b.stoch);
        }
/*@fn expanded:strategies::double_ma_stoch DoubleMAStochParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::double_ma_stoch DoubleMAStochParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::double_ma_stoch DoubleMAStochParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::double_ma_stoch DoubleMAStochParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use double_ma_stoch::{DoubleMAStochParams, DoubleMAStochParamsContext};
pub mod four_week_rule { use super::*;
/*@struct juno/src/strategies/four_week_rule.rs FourWeekRuleParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::four_week_rule FourWeekRuleParamsContext
@*/
/*@fn juno/src/strategies/four_week_rule.rs period
flag: extern
@*/
/*@fn juno/src/strategies/four_week_rule.rs ma
flag: extern
@*/
impl Chromosome for FourWeekRuleParams {
    type Context = FourWeekRuleParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (FourWeekRuleParams { period: b.period, ..a }, FourWeekRuleParams { period: a.period, ..b }) } else if i == 0int + 1 { (FourWeekRuleParams { ma: b.ma, ..a }, FourWeekRuleParams { ma: a.ma, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.ma == b.ma } else if i == 0int + 1 { a.period == b.period } else { a == b } }
    open spec fn usable(c: FourWeekRuleParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.period == a.period);
        assert(Self::g_cross(a, b, 0int + 1).0.ma == a.ma);
        }
/*@fn expanded:strategies::four_week_rule FourWeekRuleParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::four_week_rule FourWeekRuleParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::four_week_rule FourWeekRuleParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::four_week_rule FourWeekRuleParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use four_week_rule::{FourWeekRuleParams, FourWeekRuleParamsContext};
pub mod macd { use super::*;
/*@struct juno/src/strategies/macd.rs MacdParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::macd MacdParamsContext
@*/
/*@fn juno/src/strategies/macd.rs periods
flag: extern
@*/
/*@fn juno/src/strategies/macd.rs signal_period
flag: extern
@*/
impl Chromosome for MacdParams {
    type Context = MacdParamsContext;
    open spec fn g_len() -> nat { 2nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (MacdParams { periods: b.periods, ..a }, MacdParams { periods: a.periods, ..b }) } else if i == 0int + 1 { (MacdParams { signal_period: b.signal_period, ..a }, MacdParams { signal_period: a.signal_period, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.signal_period == b.signal_period } else if i == 0int + 1 { a.periods == b.periods } else { a == b } }
    open spec fn usable(c: MacdParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.periods == a.periods);
        assert(Self::g_cross(a, b, 0int + 1).0.signal_period == a.signal_period);
        }
/*@fn expanded:strategies::macd MacdParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::macd MacdParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::macd MacdParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::macd MacdParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use macd::{MacdParams, MacdParamsContext};
pub mod rsi { use super::*;
/*@struct juno/src/strategies/rsi.rs RsiParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::rsi RsiParamsContext
@*/
/*@fn juno/src/strategies/rsi.rs period
flag: extern
@*/
/*@fn juno/src/strategies/rsi.rs up_threshold
flag: extern
@*/
/*@fn juno/src/strategies/rsi.rs down_threshold
flag: extern
@*/
impl Chromosome for RsiParams {
    type Context = RsiParamsContext;
    open spec fn g_len() -> nat { 3nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (RsiParams { period: b.period, ..a }, RsiParams { period: a.period, ..b }) } else if i == 0int + 1 { (RsiParams { up_threshold: b.up_threshold, ..a }, RsiParams { up_threshold: a.up_threshold, ..b }) } else if i == 0int + 2 { (RsiParams { down_threshold: b.down_threshold, ..a }, RsiParams { down_threshold: a.down_threshold, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { a.up_threshold == b.up_threshold && a.down_threshold == b.down_threshold } else if i == 0int + 1 { a.period == b.period && a.down_threshold == b.down_threshold } else if i == 0int + 2 { a.period == b.period && a.up_threshold == b.up_threshold } else { a == b } }
    open spec fn usable(c: RsiParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.period == a.period);
        assert(Self::g_cross(a, b, 0int + 1).0.up_threshold == a.up_threshold);
        assert(Self::g_cross(a, b, 0int + 2).0.down_threshold == a.down_threshold);
        }
/*@fn expanded:strategies::rsi RsiParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::rsi RsiParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::rsi RsiParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::rsi RsiParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use rsi::{RsiParams, RsiParamsContext};
pub mod single_ma { use super::*;
/*@struct juno/src/strategies/single_ma.rs SingleMAParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::single_ma SingleMAParamsContext
@*/
/*@fn juno/src/strategies/single_ma.rs ma
flag: extern
@*/
impl Chromosome for SingleMAParams {
    type Context = SingleMAParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (SingleMAParams { ma: b.ma, ..a }, SingleMAParams { ma: a.ma, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { true } else { a == b } }
    open spec fn usable(c: SingleMAParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.ma == a.ma);
        }
/*@fn expanded:strategies::single_ma SingleMAParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::single_ma SingleMAParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::single_ma SingleMAParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::single_ma SingleMAParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use single_ma::{SingleMAParams, SingleMAParamsContext};
pub mod triple_ma { use super::*;
/*@struct juno/src/strategies/triple_ma.rs TripleMAParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::triple_ma TripleMAParamsContext
@*/
/*@fn juno/src/strategies/triple_ma.rs mas
flag: extern
@*/
impl Chromosome for TripleMAParams {
    type Context = TripleMAParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (TripleMAParams { mas: b.mas, ..a }, TripleMAParams { mas: a.mas, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { true } else { a == b } }
    open spec fn usable(c: TripleMAParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.mas == a.mas);
        }
/*@fn expanded:strategies::triple_ma TripleMAParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::triple_ma TripleMAParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::triple_ma TripleMAParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::triple_ma TripleMAParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use triple_ma::{TripleMAParams, TripleMAParamsContext};
/*@enum juno/src/strategies/mod.rs SignalParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:strategies SignalParamsContext
@*/
impl Tagged for SignalParams { open spec fn tag(&self) -> int { match *self { SignalParams::DoubleMA(_) => 0int, SignalParams::DoubleMA2(_) => 1int, SignalParams::DoubleMAStoch(_) => 2int, SignalParams::FourWeekRule(_) => 3int, SignalParams::Macd(_) => 4int, SignalParams::SingleMA(_) => 5int, SignalParams::TripleMA(_) => 6int, } } }
impl SignalParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { SignalParams::DoubleMA(_) => DoubleMAParams::g_len(), SignalParams::DoubleMA2(_) => DoubleMA2Params::g_len(), SignalParams::DoubleMAStoch(_) => DoubleMAStochParams::g_len(), SignalParams::FourWeekRule(_) => FourWeekRuleParams::g_len(), SignalParams::Macd(_) => MacdParams::g_len(), SignalParams::SingleMA(_) => SingleMAParams::g_len(), SignalParams::TripleMA(_) => TripleMAParams::g_len(), } }
/*@fn expanded:strategies SignalParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_CTX => DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_CTX_X()
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_CTX_X() -> (r: &'static DoubleMAParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_2_CTX => DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_2_CTX_X()
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_2_CTX_X() -> (r: &'static DoubleMA2ParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_STOCH_CTX => DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_STOCH_CTX_X()
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_DOUBLE_MA_STOCH_CTX_X() -> (r: &'static DoubleMAStochParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_FOUR_WEEK_RULE_CTX => DEFAULT_SIGNAL_PARAMS_FOUR_WEEK_RULE_CTX_X()
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_FOUR_WEEK_RULE_CTX_X() -> (r: &'static FourWeekRuleParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_MACD_CTX => DEFAULT_SIGNAL_PARAMS_MACD_CTX_X()
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_MACD_CTX_X() -> (r: &'static MacdParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_SINGLE_MA_CTX => DEFAULT_SIGNAL_PARAMS_SINGLE_MA_CTX_X()
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_SINGLE_MA_CTX_X() -> (r: &'static SingleMAParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_SIGNAL_PARAMS_TRIPLE_MA_CTX => DEFAULT_SIGNAL_PARAMS_TRIPLE_MA_CTX_X()
#[verifier::external_body] pub fn DEFAULT_SIGNAL_PARAMS_TRIPLE_MA_CTX_X() -> (r: &'static TripleMAParamsContext) { unimplemented!() }
impl SignalParamsContext {
/*@fn expanded:strategies SignalParamsContext::doublema
@*/
/*@fn expanded:strategies SignalParamsContext::doublema2
@*/
/*@fn expanded:strategies SignalParamsContext::doublemastoch
@*/
/*@fn expanded:strategies SignalParamsContext::fourweekrule
@*/
/*@fn expanded:strategies SignalParamsContext::macd
@*/
/*@fn expanded:strategies SignalParamsContext::singlema
@*/
/*@fn expanded:strategies SignalParamsContext::triplema
@*/
}
impl Chromosome for SignalParams {
    type Context = SignalParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(DoubleMAParams::g_len(), nmax(DoubleMA2Params::g_len(), nmax(DoubleMAStochParams::g_len(), nmax(FourWeekRuleParams::g_len(), nmax(MacdParams::g_len(), nmax(SingleMAParams::g_len(), TripleMAParams::g_len())))))) }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0 { (b, a) } else { match (a, b) { (SignalParams::DoubleMA(x), SignalParams::DoubleMA(y)) => if i - 1 < DoubleMAParams::g_len() { let r = DoubleMAParams::g_cross(x, y, i - 1); (SignalParams::DoubleMA(r.0), SignalParams::DoubleMA(r.1)) } else { (a, b) }, (SignalParams::DoubleMA2(x), SignalParams::DoubleMA2(y)) => if i - 1 < DoubleMA2Params::g_len() { let r = DoubleMA2Params::g_cross(x, y, i - 1); (SignalParams::DoubleMA2(r.0), SignalParams::DoubleMA2(r.1)) } else { (a, b) }, (SignalParams::DoubleMAStoch(x), SignalParams::DoubleMAStoch(y)) => if i - 1 < DoubleMAStochParams::g_len() { let r = DoubleMAStochParams::g_cross(x, y, i - 1); (SignalParams::DoubleMAStoch(r.0), SignalParams::DoubleMAStoch(r.1)) } else { (a, b) }, (SignalParams::FourWeekRule(x), SignalParams::FourWeekRule(y)) => if i - 1 < FourWeekRuleParams::g_len() { let r = FourWeekRuleParams::g_cross(x, y, i - 1); (SignalParams::FourWeekRule(r.0), SignalParams::FourWeekRule(r.1)) } else { (a, b) }, (SignalParams::Macd(x), SignalParams::Macd(y)) => if i - 1 < MacdParams::g_len() { let r = MacdParams::g_cross(x, y, i - 1); (SignalParams::Macd(r.0), SignalParams::Macd(r.1)) } else { (a, b) }, (SignalParams::SingleMA(x), SignalParams::SingleMA(y)) => if i - 1 < SingleMAParams::g_len() { let r = SingleMAParams::g_cross(x, y, i - 1); (SignalParams::SingleMA(r.0), SignalParams::SingleMA(r.1)) } else { (a, b) }, (SignalParams::TripleMA(x), SignalParams::TripleMA(y)) => if i - 1 < TripleMAParams::g_len() { let r = TripleMAParams::g_cross(x, y, i - 1); (SignalParams::TripleMA(r.0), SignalParams::TripleMA(r.1)) } else { (a, b) }, _ => (a, b) } } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0 { true } else { match (a, b) { (SignalParams::DoubleMA(x), SignalParams::DoubleMA(y)) => if i - 1 < DoubleMAParams::g_len() { DoubleMAParams::same_but(x, y, i - 1) } else { x == y }, (SignalParams::DoubleMA2(x), SignalParams::DoubleMA2(y)) => if i - 1 < DoubleMA2Params::g_len() { DoubleMA2Params::same_but(x, y, i - 1) } else { x == y }, (SignalParams::DoubleMAStoch(x), SignalParams::DoubleMAStoch(y)) => if i - 1 < DoubleMAStochParams::g_len() { DoubleMAStochParams::same_but(x, y, i - 1) } else { x == y }, (SignalParams::FourWeekRule(x), SignalParams::FourWeekRule(y)) => if i - 1 < FourWeekRuleParams::g_len() { FourWeekRuleParams::same_but(x, y, i - 1) } else { x == y }, (SignalParams::Macd(x), SignalParams::Macd(y)) => if i - 1 < MacdParams::g_len() { MacdParams::same_but(x, y, i - 1) } else { x == y }, (SignalParams::SingleMA(x), SignalParams::SingleMA(y)) => if i - 1 < SingleMAParams::g_len() { SingleMAParams::same_but(x, y, i - 1) } else { x == y }, (SignalParams::TripleMA(x), SignalParams::TripleMA(y)) => if i - 1 < TripleMAParams::g_len() { TripleMAParams::same_but(x, y, i - 1) } else { x == y }, _ => false } } }
    open spec fn usable(c: SignalParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) { match a { SignalParams::DoubleMA(x) => DoubleMAParams::g_refl(x, i - 1), SignalParams::DoubleMA2(x) => DoubleMA2Params::g_refl(x, i - 1), SignalParams::DoubleMAStoch(x) => DoubleMAStochParams::g_refl(x, i - 1), SignalParams::FourWeekRule(x) => FourWeekRuleParams::g_refl(x, i - 1), SignalParams::Macd(x) => MacdParams::g_refl(x, i - 1), SignalParams::SingleMA(x) => SingleMAParams::g_refl(x, i - 1), SignalParams::TripleMA(x) => TripleMAParams::g_refl(x, i - 1), } }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if i > 0 { match (a, b) { (SignalParams::DoubleMA(x), SignalParams::DoubleMA(y)) => { if i - 1 < DoubleMAParams::g_len() { DoubleMAParams::g_laws(x, y, i - 1); } } (SignalParams::DoubleMA2(x), SignalParams::DoubleMA2(y)) => { if i - 1 < DoubleMA2Params::g_len() { DoubleMA2Params::g_laws(x, y, i - 1); } } (SignalParams::DoubleMAStoch(x), SignalParams::DoubleMAStoch(y)) => { if i - 1 < DoubleMAStochParams::g_len() { DoubleMAStochParams::g_laws(x, y, i - 1); } } (SignalParams::FourWeekRule(x), SignalParams::FourWeekRule(y)) => { if i - 1 < FourWeekRuleParams::g_len() { FourWeekRuleParams::g_laws(x, y, i - 1); } } (SignalParams::Macd(x), SignalParams::Macd(y)) => { if i - 1 < MacdParams::g_len() { MacdParams::g_laws(x, y, i - 1); } } (SignalParams::SingleMA(x), SignalParams::SingleMA(y)) => { if i - 1 < SingleMAParams::g_len() { SingleMAParams::g_laws(x, y, i - 1); } } (SignalParams::TripleMA(x), SignalParams::TripleMA(y)) => { if i - 1 < TripleMAParams::g_len() { TripleMAParams::g_laws(x, y, i - 1); } } _ => {} } }
        Self::g_refl(a, i); Self::g_refl(b, i);
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0) == (a, b));
        }
/*@fn expanded:strategies SignalParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies SignalParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies SignalParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies SignalParams::Chromosome::mutate
flag: novis
@*/
}
/*@enum juno/src/strategies/mod.rs OscillatorParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:strategies OscillatorParamsContext
@*/
impl Tagged for OscillatorParams { open spec fn tag(&self) -> int { match *self { OscillatorParams::Rsi(_) => 0int, OscillatorParams::Stoch(_) => 1int, } } }
impl OscillatorParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { OscillatorParams::Rsi(_) => RsiParams::g_len(), OscillatorParams::Stoch(_) => StochParams::g_len(), } }
/*@fn expanded:strategies OscillatorParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_OSCILLATOR_PARAMS_RSI_CTX => DEFAULT_OSCILLATOR_PARAMS_RSI_CTX_X()
#[verifier::external_body] pub fn DEFAULT_OSCILLATOR_PARAMS_RSI_CTX_X() -> (r: &'static RsiParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_OSCILLATOR_PARAMS_STOCH_CTX => DEFAULT_OSCILLATOR_PARAMS_STOCH_CTX_X()
#[verifier::external_body] pub fn DEFAULT_OSCILLATOR_PARAMS_STOCH_CTX_X() -> (r: &'static StochParamsContext) { unimplemented!() }
impl OscillatorParamsContext {
/*@fn expanded:strategies OscillatorParamsContext::rsi
@*/
/*@fn expanded:strategies OscillatorParamsContext::stoch
@*/
}
impl Chromosome for OscillatorParams {
    type Context = OscillatorParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(RsiParams::g_len(), StochParams::g_len()) }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0 { (b, a) } else { match (a, b) { (OscillatorParams::Rsi(x), OscillatorParams::Rsi(y)) => if i - 1 < RsiParams::g_len() { let r = RsiParams::g_cross(x, y, i - 1); (OscillatorParams::Rsi(r.0), OscillatorParams::Rsi(r.1)) } else { (a, b) }, (OscillatorParams::Stoch(x), OscillatorParams::Stoch(y)) => if i - 1 < StochParams::g_len() { let r = StochParams::g_cross(x, y, i - 1); (OscillatorParams::Stoch(r.0), OscillatorParams::Stoch(r.1)) } else { (a, b) }, _ => (a, b) } } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0 { true } else { match (a, b) { (OscillatorParams::Rsi(x), OscillatorParams::Rsi(y)) => if i - 1 < RsiParams::g_len() { RsiParams::same_but(x, y, i - 1) } else { x == y }, (OscillatorParams::Stoch(x), OscillatorParams::Stoch(y)) => if i - 1 < StochParams::g_len() { StochParams::same_but(x, y, i - 1) } else { x == y }, _ => false } } }
    open spec fn usable(c: OscillatorParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) { match a { OscillatorParams::Rsi(x) => RsiParams::g_refl(x, i - 1), OscillatorParams::Stoch(x) => StochParams::g_refl(x, i - 1), } }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if i > 0 { match (a, b) { (OscillatorParams::Rsi(x), OscillatorParams::Rsi(y)) => { if i - 1 < RsiParams::g_len() { RsiParams::g_laws(x, y, i - 1); } } (OscillatorParams::Stoch(x), OscillatorParams::Stoch(y)) => { if i - 1 < StochParams::g_len() { StochParams::g_laws(x, y, i - 1); } } _ => {} } }
        Self::g_refl(a, i); Self::g_refl(b, i);
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0) == (a, b));
        }
/*@fn expanded:strategies OscillatorParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies OscillatorParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies OscillatorParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies OscillatorParams::Chromosome::mutate
flag: novis
@*/
}
pub mod sig { use super::*;
/*@struct juno/src/strategies/sig.rs SigParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::sig SigParamsContext
@*/
/*@fn juno/src/strategies/sig.rs persistence
flag: extern
@*/
/*@fn juno/src/strategies/sig.rs mid_trend_policy
flag: extern
@*/
/*@fn juno/src/strategies/sig.rs buffer_interval
flag: extern
@*/
impl Chromosome for SigParams {
    type Context = SigParamsContext;
    open spec fn g_len() -> nat { SignalParams::g_len() + 3nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i < 0int + SignalParams::g_len() { let r = SignalParams::g_cross(a.sig, b.sig, i - (0int)); (SigParams { sig: r.0, ..a }, SigParams { sig: r.1, ..b }) } else if i == 0int + SignalParams::g_len() + 0 { (SigParams { persistence: b.persistence, ..a }, SigParams { persistence: a.persistence, ..b }) } else if i == 0int + SignalParams::g_len() + 1 { (SigParams { mid_trend_policy: b.mid_trend_policy, ..a }, SigParams { mid_trend_policy: a.mid_trend_policy, ..b }) } else if i == 0int + SignalParams::g_len() + 2 { (SigParams { buffer_interval: b.buffer_interval, ..a }, SigParams { buffer_interval: a.buffer_interval, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i < 0int + SignalParams::g_len() { SignalParams::same_but(a.sig, b.sig, i - (0int)) && a.persistence == b.persistence && a.mid_trend_policy == b.mid_trend_policy && a.buffer_interval == b.buffer_interval } else if i == 0int + SignalParams::g_len() + 0 { a.sig == b.sig && a.mid_trend_policy == b.mid_trend_policy && a.buffer_interval == b.buffer_interval } else if i == 0int + SignalParams::g_len() + 1 { a.sig == b.sig && a.persistence == b.persistence && a.buffer_interval == b.buffer_interval } else if i == 0int + SignalParams::g_len() + 2 { a.sig == b.sig && a.persistence == b.persistence && a.mid_trend_policy == b.mid_trend_policy } else { a == b } }
    open spec fn usable(c: SigParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) { SignalParams::g_refl(a.sig, i - (0int));  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if 0int <= i < 0int + SignalParams::g_len() { SignalParams::g_laws(a.sig, b.sig, i - (0int)); }
        }
    proof fn g_whole(a: Self, b: Self) {
        assert forall|i: int| 0 <= i < SignalParams::g_len() implies #[trigger] SignalParams::g_cross(a.sig, b.sig, i) == (a.sig, b.sig) by { let q = Self::g_cross(a, b, 0int + i); assert(q == (a, b)); assert(q.0.sig == a.sig && q.1.sig == b.sig); }
        SignalParams::g_whole(a.sig, b.sig);
        assert(Self::g_cross(a, b, 0int + SignalParams::g_len() + 0).0.persistence == a.persistence);
        assert(Self::g_cross(a, b, 0int + SignalParams::g_len() + 1).0.mid_trend_policy == a.mid_trend_policy);
        assert(Self::g_cross(a, b, 0int + SignalParams::g_len() + 2).0.buffer_interval == a.buffer_interval);
        }
/*@fn expanded:strategies::sig SigParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::sig SigParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::sig SigParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::sig SigParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use sig::{SigParams, SigParamsContext};
pub mod sig_osc { use super::*;
/*@struct juno/src/strategies/sig_osc.rs SigOscParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:strategies::sig_osc SigOscParamsContext
@*/
/*@fn juno/src/strategies/sig_osc.rs osc_filter
flag: extern
@*/
/*@fn juno/src/strategies/sig_osc.rs persistence
flag: extern
@*/
/*@fn juno/src/strategies/sig_osc.rs mid_trend_policy
flag: extern
@*/
impl Chromosome for SigOscParams {
    type Context = SigOscParamsContext;
    open spec fn g_len() -> nat { SignalParams::g_len() + OscillatorParams::g_len() + 3nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i < 0int + SignalParams::g_len() { let r = SignalParams::g_cross(a.sig, b.sig, i - (0int)); (SigOscParams { sig: r.0, ..a }, SigOscParams { sig: r.1, ..b }) } else if i < 0int + SignalParams::g_len() + OscillatorParams::g_len() { let r = OscillatorParams::g_cross(a.osc, b.osc, i - (0int + SignalParams::g_len())); (SigOscParams { osc: r.0, ..a }, SigOscParams { osc: r.1, ..b }) } else if i == 0int + SignalParams::g_len() + OscillatorParams::g_len() + 0 { (SigOscParams { osc_filter: b.osc_filter, ..a }, SigOscParams { osc_filter: a.osc_filter, ..b }) } else if i == 0int + SignalParams::g_len() + OscillatorParams::g_len() + 1 { (SigOscParams { persistence: b.persistence, ..a }, SigOscParams { persistence: a.persistence, ..b }) } else if i == 0int + SignalParams::g_len() + OscillatorParams::g_len() + 2 { (SigOscParams { mid_trend_policy: b.mid_trend_policy, ..a }, SigOscParams { mid_trend_policy: a.mid_trend_policy, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i < 0int + SignalParams::g_len() { SignalParams::same_but(a.sig, b.sig, i - (0int)) && a.osc == b.osc && a.osc_filter == b.osc_filter && a.persistence == b.persistence && a.mid_trend_policy == b.mid_trend_policy } else if i < 0int + SignalParams::g_len() + OscillatorParams::g_len() { OscillatorParams::same_but(a.osc, b.osc, i - (0int + SignalParams::g_len())) && a.sig == b.sig && a.osc_filter == b.osc_filter && a.persistence == b.persistence && a.mid_trend_policy == b.mid_trend_policy } else if i == 0int + SignalParams::g_len() + OscillatorParams::g_len() + 0 { a.sig == b.sig && a.osc == b.osc && a.persistence == b.persistence && a.mid_trend_policy == b.mid_trend_policy } else if i == 0int + SignalParams::g_len() + OscillatorParams::g_len() + 1 { a.sig == b.sig && a.osc == b.osc && a.osc_filter == b.osc_filter && a.mid_trend_policy == b.mid_trend_policy } else if i == 0int + SignalParams::g_len() + OscillatorParams::g_len() + 2 { a.sig == b.sig && a.osc == b.osc && a.osc_filter == b.osc_filter && a.persistence == b.persistence } else { a == b } }
    open spec fn usable(c: SigOscParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) { SignalParams::g_refl(a.sig, i - (0int)); OscillatorParams::g_refl(a.osc, i - (0int + SignalParams::g_len()));  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if 0int <= i < 0int + SignalParams::g_len() { SignalParams::g_laws(a.sig, b.sig, i - (0int)); }
        if 0int + SignalParams::g_len() <= i < 0int + SignalParams::g_len() + OscillatorParams::g_len() { OscillatorParams::g_laws(a.osc, b.osc, i - (0int + SignalParams::g_len())); }
        }
    proof fn g_whole(a: Self, b: Self) {
        assert forall|i: int| 0 <= i < SignalParams::g_len() implies #[trigger] SignalParams::g_cross(a.sig, b.sig, i) == (a.sig, b.sig) by { let q = Self::g_cross(a, b, 0int + i); assert(q == (a, b)); assert(q.0.sig == a.sig && q.1.sig == b.sig); }
        SignalParams::g_whole(a.sig, b.sig);
        assert forall|i: int| 0 <= i < OscillatorParams::g_len() implies #[trigger] OscillatorParams::g_cross(a.osc, b.osc, i) == (a.osc, b.osc) by { let q = Self::g_cross(a, b, 0int + SignalParams::g_len() + i); assert(q == (a, b)); assert(q.0.osc == a.osc && q.1.osc == b.osc); }
        OscillatorParams::g_whole(a.osc, b.osc);
        assert(Self::g_cross(a, b, 0int + SignalParams::g_len() + OscillatorParams::g_len() + 0).0.osc_filter == a.osc_filter);
        assert(Self::g_cross(a, b, 0int + SignalParams::g_len() + OscillatorParams::g_len() + 1).0.persistence == a.persistence);
        assert(Self::g_cross(a, b, 0int + SignalParams::g_len() + OscillatorParams::g_len() + 2).0.mid_trend_policy == a.mid_trend_policy);
        }
/*@fn expanded:strategies::sig_osc SigOscParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies::sig_osc SigOscParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies::sig_osc SigOscParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies::sig_osc SigOscParams::Chromosome::mutate
flag: novis
@*/
}
}
pub use sig_osc::{SigOscParams, SigOscParamsContext};
/*@enum juno/src/strategies/mod.rs StrategyParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum expanded:strategies StrategyParamsContext
@*/
impl Tagged for StrategyParams { open spec fn tag(&self) -> int { match *self { StrategyParams::DoubleMA(_) => 0int, StrategyParams::DoubleMA2(_) => 1int, StrategyParams::DoubleMAStoch(_) => 2int, StrategyParams::FourWeekRule(_) => 3int, StrategyParams::Macd(_) => 4int, StrategyParams::SingleMA(_) => 5int, StrategyParams::TripleMA(_) => 6int, StrategyParams::SigOsc(_) => 7int, StrategyParams::Sig(_) => 8int, } } }
impl StrategyParams {
    pub open spec fn g_vlen(&self) -> nat { match *self { StrategyParams::DoubleMA(_) => DoubleMAParams::g_len(), StrategyParams::DoubleMA2(_) => DoubleMA2Params::g_len(), StrategyParams::DoubleMAStoch(_) => DoubleMAStochParams::g_len(), StrategyParams::FourWeekRule(_) => FourWeekRuleParams::g_len(), StrategyParams::Macd(_) => MacdParams::g_len(), StrategyParams::SingleMA(_) => SingleMAParams::g_len(), StrategyParams::TripleMA(_) => TripleMAParams::g_len(), StrategyParams::SigOsc(_) => SigOscParams::g_len(), StrategyParams::Sig(_) => SigParams::g_len(), } }
/*@fn expanded:strategies StrategyParams::variant_len
ret: r
spec:
    ensures r == self.g_vlen(),
@*/
}
//@subst_expr &DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_CTX => DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_CTX_X() -> (r: &'static DoubleMAParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_2_CTX => DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_2_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_2_CTX_X() -> (r: &'static DoubleMA2ParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_STOCH_CTX => DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_STOCH_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_DOUBLE_MA_STOCH_CTX_X() -> (r: &'static DoubleMAStochParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_FOUR_WEEK_RULE_CTX => DEFAULT_STRATEGY_PARAMS_FOUR_WEEK_RULE_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_FOUR_WEEK_RULE_CTX_X() -> (r: &'static FourWeekRuleParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_MACD_CTX => DEFAULT_STRATEGY_PARAMS_MACD_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_MACD_CTX_X() -> (r: &'static MacdParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_SINGLE_MA_CTX => DEFAULT_STRATEGY_PARAMS_SINGLE_MA_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_SINGLE_MA_CTX_X() -> (r: &'static SingleMAParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_TRIPLE_MA_CTX => DEFAULT_STRATEGY_PARAMS_TRIPLE_MA_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_TRIPLE_MA_CTX_X() -> (r: &'static TripleMAParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_SIG_OSC_CTX => DEFAULT_STRATEGY_PARAMS_SIG_OSC_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_SIG_OSC_CTX_X() -> (r: &'static SigOscParamsContext) { unimplemented!() }
//@subst_expr &DEFAULT_STRATEGY_PARAMS_SIG_CTX => DEFAULT_STRATEGY_PARAMS_SIG_CTX_X()
#[verifier::external_body] pub fn DEFAULT_STRATEGY_PARAMS_SIG_CTX_X() -> (r: &'static SigParamsContext) { unimplemented!() }
impl StrategyParamsContext {
/*@fn expanded:strategies StrategyParamsContext::doublema
@*/
/*@fn expanded:strategies StrategyParamsContext::doublema2
@*/
/*@fn expanded:strategies StrategyParamsContext::doublemastoch
@*/
/*@fn expanded:strategies StrategyParamsContext::fourweekrule
@*/
/*@fn expanded:strategies StrategyParamsContext::macd
@*/
/*@fn expanded:strategies StrategyParamsContext::singlema
@*/
/*@fn expanded:strategies StrategyParamsContext::triplema
@*/
/*@fn expanded:strategies StrategyParamsContext::sigosc
@*/
/*@fn expanded:strategies StrategyParamsContext::sig
@*/
}
impl Chromosome for StrategyParams {
    type Context = StrategyParamsContext;
    open spec fn g_len() -> nat { 1 + nmax(DoubleMAParams::g_len(), nmax(DoubleMA2Params::g_len(), nmax(DoubleMAStochParams::g_len(), nmax(FourWeekRuleParams::g_len(), nmax(MacdParams::g_len(), nmax(SingleMAParams::g_len(), nmax(TripleMAParams::g_len(), nmax(SigOscParams::g_len(), SigParams::g_len())))))))) }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0 { (b, a) } else { match (a, b) { (StrategyParams::DoubleMA(x), StrategyParams::DoubleMA(y)) => if i - 1 < DoubleMAParams::g_len() { let r = DoubleMAParams::g_cross(x, y, i - 1); (StrategyParams::DoubleMA(r.0), StrategyParams::DoubleMA(r.1)) } else { (a, b) }, (StrategyParams::DoubleMA2(x), StrategyParams::DoubleMA2(y)) => if i - 1 < DoubleMA2Params::g_len() { let r = DoubleMA2Params::g_cross(x, y, i - 1); (StrategyParams::DoubleMA2(r.0), StrategyParams::DoubleMA2(r.1)) } else { (a, b) }, (StrategyParams::DoubleMAStoch(x), StrategyParams::DoubleMAStoch(y)) => if i - 1 < DoubleMAStochParams::g_len() { let r = DoubleMAStochParams::g_cross(x, y, i - 1); (StrategyParams::DoubleMAStoch(r.0), StrategyParams::DoubleMAStoch(r.1)) } else { (a, b) }, (StrategyParams::FourWeekRule(x), StrategyParams::FourWeekRule(y)) => if i - 1 < FourWeekRuleParams::g_len() { let r = FourWeekRuleParams::g_cross(x, y, i - 1); (StrategyParams::FourWeekRule(r.0), StrategyParams::FourWeekRule(r.1)) } else { (a, b) }, (StrategyParams::Macd(x), StrategyParams::Macd(y)) => if i - 1 < MacdParams::g_len() { let r = MacdParams::g_cross(x, y, i - 1); (StrategyParams::Macd(r.0), StrategyParams::Macd(r.1)) } else { (a, b) }, (StrategyParams::SingleMA(x), StrategyParams::SingleMA(y)) => if i - 1 < SingleMAParams::g_len() { let r = SingleMAParams::g_cross(x, y, i - 1); (StrategyParams::SingleMA(r.0), StrategyParams::SingleMA(r.1)) } else { (a, b) }, (StrategyParams::TripleMA(x), StrategyParams::TripleMA(y)) => if i - 1 < TripleMAParams::g_len() { let r = TripleMAParams::g_cross(x, y, i - 1); (StrategyParams::TripleMA(r.0), StrategyParams::TripleMA(r.1)) } else { (a, b) }, (StrategyParams::SigOsc(x), StrategyParams::SigOsc(y)) => if i - 1 < SigOscParams::g_len() { let r = SigOscParams::g_cross(x, y, i - 1); (StrategyParams::SigOsc(r.0), StrategyParams::SigOsc(r.1)) } else { (a, b) }, (StrategyParams::Sig(x), StrategyParams::Sig(y)) => if i - 1 < SigParams::g_len() { let r = SigParams::g_cross(x, y, i - 1); (StrategyParams::Sig(r.0), StrategyParams::Sig(r.1)) } else { (a, b) }, _ => (a, b) } } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0 { true } else { match (a, b) { (StrategyParams::DoubleMA(x), StrategyParams::DoubleMA(y)) => if i - 1 < DoubleMAParams::g_len() { DoubleMAParams::same_but(x, y, i - 1) } else { x == y }, (StrategyParams::DoubleMA2(x), StrategyParams::DoubleMA2(y)) => if i - 1 < DoubleMA2Params::g_len() { DoubleMA2Params::same_but(x, y, i - 1) } else { x == y }, (StrategyParams::DoubleMAStoch(x), StrategyParams::DoubleMAStoch(y)) => if i - 1 < DoubleMAStochParams::g_len() { DoubleMAStochParams::same_but(x, y, i - 1) } else { x == y }, (StrategyParams::FourWeekRule(x), StrategyParams::FourWeekRule(y)) => if i - 1 < FourWeekRuleParams::g_len() { FourWeekRuleParams::same_but(x, y, i - 1) } else { x == y }, (StrategyParams::Macd(x), StrategyParams::Macd(y)) => if i - 1 < MacdParams::g_len() { MacdParams::same_but(x, y, i - 1) } else { x == y }, (StrategyParams::SingleMA(x), StrategyParams::SingleMA(y)) => if i - 1 < SingleMAParams::g_len() { SingleMAParams::same_but(x, y, i - 1) } else { x == y }, (StrategyParams::TripleMA(x), StrategyParams::TripleMA(y)) => if i - 1 < TripleMAParams::g_len() { TripleMAParams::same_but(x, y, i - 1) } else { x == y }, (StrategyParams::SigOsc(x), StrategyParams::SigOsc(y)) => if i - 1 < SigOscParams::g_len() { SigOscParams::same_but(x, y, i - 1) } else { x == y }, (StrategyParams::Sig(x), StrategyParams::Sig(y)) => if i - 1 < SigParams::g_len() { SigParams::same_but(x, y, i - 1) } else { x == y }, _ => false } } }
    open spec fn usable(c: StrategyParamsContext) -> bool { true }
    proof fn g_refl(a: Self, i: int) { match a { StrategyParams::DoubleMA(x) => DoubleMAParams::g_refl(x, i - 1), StrategyParams::DoubleMA2(x) => DoubleMA2Params::g_refl(x, i - 1), StrategyParams::DoubleMAStoch(x) => DoubleMAStochParams::g_refl(x, i - 1), StrategyParams::FourWeekRule(x) => FourWeekRuleParams::g_refl(x, i - 1), StrategyParams::Macd(x) => MacdParams::g_refl(x, i - 1), StrategyParams::SingleMA(x) => SingleMAParams::g_refl(x, i - 1), StrategyParams::TripleMA(x) => TripleMAParams::g_refl(x, i - 1), StrategyParams::SigOsc(x) => SigOscParams::g_refl(x, i - 1), StrategyParams::Sig(x) => SigParams::g_refl(x, i - 1), } }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if i > 0 { match (a, b) { (StrategyParams::DoubleMA(x), StrategyParams::DoubleMA(y)) => { if i - 1 < DoubleMAParams::g_len() { DoubleMAParams::g_laws(x, y, i - 1); } } (StrategyParams::DoubleMA2(x), StrategyParams::DoubleMA2(y)) => { if i - 1 < DoubleMA2Params::g_len() { DoubleMA2Params::g_laws(x, y, i - 1); } } (StrategyParams::DoubleMAStoch(x), StrategyParams::DoubleMAStoch(y)) => { if i - 1 < DoubleMAStochParams::g_len() { DoubleMAStochParams::g_laws(x, y, i - 1); } } (StrategyParams::FourWeekRule(x), StrategyParams::FourWeekRule(y)) => { if i - 1 < FourWeekRuleParams::g_len() { FourWeekRuleParams::g_laws(x, y, i - 1); } } (StrategyParams::Macd(x), StrategyParams::Macd(y)) => { if i - 1 < MacdParams::g_len() { MacdParams::g_laws(x, y, i - 1); } } (StrategyParams::SingleMA(x), StrategyParams::SingleMA(y)) => { if i - 1 < SingleMAParams::g_len() { SingleMAParams::g_laws(x, y, i - 1); } } (StrategyParams::TripleMA(x), StrategyParams::TripleMA(y)) => { if i - 1 < TripleMAParams::g_len() { TripleMAParams::g_laws(x, y, i - 1); } } (StrategyParams::SigOsc(x), StrategyParams::SigOsc(y)) => { if i - 1 < SigOscParams::g_len() { SigOscParams::g_laws(x, y, i - 1); } } (StrategyParams::Sig(x), StrategyParams::Sig(y)) => { if i - 1 < SigParams::g_len() { SigParams::g_laws(x, y, i - 1); } } _ => {} } }
        Self::g_refl(a, i); Self::g_refl(b, i);
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0) == (a, b));
        }
/*@fn expanded:strategies StrategyParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:strategies StrategyParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:strategies StrategyParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:strategies StrategyParams::Chromosome::mutate
flag: novis
@*/
}
}
pub mod trading { use super::*;
use super::{strategies::*, stop_loss::{StopLossParams, StopLossParamsContext}, take_profit::{TakeProfitParams, TakeProfitParamsContext}};
/*@struct juno/src/trading/mod.rs TraderParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/mod.rs TraderParamsContext
@*/
impl Chromosome for TraderParams {
    type Context = TraderParamsContext;
    open spec fn g_len() -> nat { 1nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i == 0int + 0 { (TraderParams { interval: b.interval, ..a }, TraderParams { interval: a.interval, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i == 0int + 0 { true } else { a == b } }
    open spec fn usable(c: TraderParamsContext) -> bool { c.intervals@.len() > 0 }
    proof fn g_refl(a: Self, i: int) {  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        }
    proof fn g_whole(a: Self, b: Self) {
        assert(Self::g_cross(a, b, 0int + 0).0.interval == a.interval);
        }
/*@fn juno/src/trading/mod.rs TraderParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn juno/src/trading/mod.rs TraderParams::Chromosome::generate
flag: novis
@*/
/*@fn juno/src/trading/mod.rs TraderParams::Chromosome::cross
flag: novis
@*/
/*@fn juno/src/trading/mod.rs TraderParams::Chromosome::mutate
flag: novis
@*/
}
/*@struct juno/src/trading/mod.rs TradingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct expanded:trading TradingParamsContext
@*/
impl Chromosome for TradingParams {
    type Context = TradingParamsContext;
    open spec fn g_len() -> nat { StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() + TakeProfitParams::g_len() + 0nat }
    open spec fn g_cross(a: Self, b: Self, i: int) -> (Self, Self) { if i < 0int + StrategyParams::g_len() { let r = StrategyParams::g_cross(a.strategy, b.strategy, i - (0int)); (TradingParams { strategy: r.0, ..a }, TradingParams { strategy: r.1, ..b }) } else if i < 0int + StrategyParams::g_len() + TraderParams::g_len() { let r = TraderParams::g_cross(a.trader, b.trader, i - (0int + StrategyParams::g_len())); (TradingParams { trader: r.0, ..a }, TradingParams { trader: r.1, ..b }) } else if i < 0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() { let r = StopLossParams::g_cross(a.stop_loss, b.stop_loss, i - (0int + StrategyParams::g_len() + TraderParams::g_len())); (TradingParams { stop_loss: r.0, ..a }, TradingParams { stop_loss: r.1, ..b }) } else if i < 0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() + TakeProfitParams::g_len() { let r = TakeProfitParams::g_cross(a.take_profit, b.take_profit, i - (0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len())); (TradingParams { take_profit: r.0, ..a }, TradingParams { take_profit: r.1, ..b }) } else { (a, b) } }
    open spec fn same_but(a: Self, b: Self, i: int) -> bool { if i < 0int + StrategyParams::g_len() { StrategyParams::same_but(a.strategy, b.strategy, i - (0int)) && a.trader == b.trader && a.stop_loss == b.stop_loss && a.take_profit == b.take_profit } else if i < 0int + StrategyParams::g_len() + TraderParams::g_len() { TraderParams::same_but(a.trader, b.trader, i - (0int + StrategyParams::g_len())) && a.strategy == b.strategy && a.stop_loss == b.stop_loss && a.take_profit == b.take_profit } else if i < 0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() { StopLossParams::same_but(a.stop_loss, b.stop_loss, i - (0int + StrategyParams::g_len() + TraderParams::g_len())) && a.strategy == b.strategy && a.trader == b.trader && a.take_profit == b.take_profit } else if i < 0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() + TakeProfitParams::g_len() { TakeProfitParams::same_but(a.take_profit, b.take_profit, i - (0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len())) && a.strategy == b.strategy && a.trader == b.trader && a.stop_loss == b.stop_loss } else { a == b } }
    open spec fn usable(c: TradingParamsContext) -> bool { TraderParams::usable(c.trader) }
    proof fn g_refl(a: Self, i: int) { StrategyParams::g_refl(a.strategy, i - (0int)); TraderParams::g_refl(a.trader, i - (0int + StrategyParams::g_len())); StopLossParams::g_refl(a.stop_loss, i - (0int + StrategyParams::g_len() + TraderParams::g_len())); TakeProfitParams::g_refl(a.take_profit, i - (0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len()));  }
    proof fn g_laws(a: Self, b: Self, i: int) {
        if 0int <= i < 0int + StrategyParams::g_len() { StrategyParams::g_laws(a.strategy, b.strategy, i - (0int)); }
        if 0int + StrategyParams::g_len() <= i < 0int + StrategyParams::g_len() + TraderParams::g_len() { TraderParams::g_laws(a.trader, b.trader, i - (0int + StrategyParams::g_len())); }
        if 0int + StrategyParams::g_len() + TraderParams::g_len() <= i < 0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() { StopLossParams::g_laws(a.stop_loss, b.stop_loss, i - (0int + StrategyParams::g_len() + TraderParams::g_len())); }
        if 0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() <= i < 0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() + TakeProfitParams::g_len() { TakeProfitParams::g_laws(a.take_profit, b.take_profit, i - (0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len())); }
        }
    proof fn g_whole(a: Self, b: Self) {
        assert forall|i: int| 0 <= i < StrategyParams::g_len() implies #[trigger] StrategyParams::g_cross(a.strategy, b.strategy, i) == (a.strategy, b.strategy) by { let q = Self::g_cross(a, b, 0int + i); assert(q == (a, b)); assert(q.0.strategy == a.strategy && q.1.strategy == b.strategy); }
        StrategyParams::g_whole(a.strategy, b.strategy);
        assert forall|i: int| 0 <= i < TraderParams::g_len() implies #[trigger] TraderParams::g_cross(a.trader, b.trader, i) == (a.trader, b.trader) by { let q = Self::g_cross(a, b, 0int + StrategyParams::g_len() + i); assert(q == (a, b)); assert(q.0.trader == a.trader && q.1.trader == b.trader); }
        TraderParams::g_whole(a.trader, b.trader);
        assert forall|i: int| 0 <= i < StopLossParams::g_len() implies #[trigger] StopLossParams::g_cross(a.stop_loss, b.stop_loss, i) == (a.stop_loss, b.stop_loss) by { let q = Self::g_cross(a, b, 0int + StrategyParams::g_len() + TraderParams::g_len() + i); assert(q == (a, b)); assert(q.0.stop_loss == a.stop_loss && q.1.stop_loss == b.stop_loss); }
        StopLossParams::g_whole(a.stop_loss, b.stop_loss);
        assert forall|i: int| 0 <= i < TakeProfitParams::g_len() implies #[trigger] TakeProfitParams::g_cross(a.take_profit, b.take_profit, i) == (a.take_profit, b.take_profit) by { let q = Self::g_cross(a, b, 0int + StrategyParams::g_len() + TraderParams::g_len() + StopLossParams::g_len() + i); assert(q == (a, b)); assert(q.0.take_profit == a.take_profit && q.1.take_profit == b.take_profit); }
        TakeProfitParams::g_whole(a.take_profit, b.take_profit);
        }
/*@fn expanded:trading TradingParams::Chromosome::len
ret: r
flag: novis
@*/
/*@fn expanded:trading TradingParams::Chromosome::generate
flag: novis
@*/
/*@fn expanded:trading TradingParams::Chromosome::cross
flag: novis
@*/
/*@fn expanded:trading TradingParams::Chromosome::mutate
flag: novis
@*/
}
}

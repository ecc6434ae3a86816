// ==== juno/src/trading/traders.rs: state and parameters ====
// strategies, stop losses and take profits: any deterministic state machine (ASSUMPTION: no hidden state;
// what they compute is the subject of C04, C05, C09 - C13)
#[verifier::external_body] pub struct DynSignal { x: u8 }
#[verifier::external_body] pub struct DynSl { x: u8 }
#[verifier::external_body] pub struct DynTp { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct StrategyParams { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct StopLossParams { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct TakeProfitParams { x: u8 }
pub uninterp spec fn st_new(p: StrategyParams, i: Interval) -> DynSignal;
pub uninterp spec fn st_upd(s: DynSignal, c: Candle) -> DynSignal;
pub uninterp spec fn st_adv(s: DynSignal) -> Advice;
pub uninterp spec fn sl_new(p: StopLossParams) -> DynSl;
pub uninterp spec fn sl_upd(s: DynSl, c: Candle) -> DynSl;
pub uninterp spec fn sl_clr(s: DynSl, c: Candle) -> DynSl;
pub uninterp spec fn sl_up(s: DynSl) -> bool;
pub uninterp spec fn sl_dn(s: DynSl) -> bool;
pub uninterp spec fn tp_new(p: TakeProfitParams) -> DynTp;
pub uninterp spec fn tp_upd(s: DynTp, c: Candle) -> DynTp;
pub uninterp spec fn tp_clr(s: DynTp, c: Candle) -> DynTp;
pub uninterp spec fn tp_up(s: DynTp) -> bool;
pub uninterp spec fn tp_dn(s: DynTp) -> bool;
impl DynSignal {
    #[verifier::external_body] pub fn update(&mut self, candle: &Candle) ensures *final(self) == st_upd(*old(self), *candle) { unimplemented!() }
    #[verifier::external_body] pub fn advice(&self) -> (r: Advice) ensures r == st_adv(*self) { unimplemented!() }
}
impl DynSl {
    #[verifier::external_body] pub fn update(&mut self, candle: &Candle) ensures *final(self) == sl_upd(*old(self), *candle) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self, candle: &Candle) ensures *final(self) == sl_clr(*old(self), *candle) { unimplemented!() }
    #[verifier::external_body] pub fn upside_hit(&self) -> (r: bool) ensures r == sl_up(*self) { unimplemented!() }
    #[verifier::external_body] pub fn downside_hit(&self) -> (r: bool) ensures r == sl_dn(*self) { unimplemented!() }
}
impl DynTp {
    #[verifier::external_body] pub fn update(&mut self, candle: &Candle) ensures *final(self) == tp_upd(*old(self), *candle) { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self, candle: &Candle) ensures *final(self) == tp_clr(*old(self), *candle) { unimplemented!() }
    #[verifier::external_body] pub fn upside_hit(&self) -> (r: bool) ensures r == tp_up(*self) { unimplemented!() }
    #[verifier::external_body] pub fn downside_hit(&self) -> (r: bool) ensures r == tp_dn(*self) { unimplemented!() }
}
impl StrategyParams { #[verifier::external_body] pub fn construct(&self, meta: &StrategyMeta) -> (r: DynSignal) ensures r == st_new(*self, meta.interval) { unimplemented!() } }
impl StopLossParams { #[verifier::external_body] pub fn construct(&self) -> (r: DynSl) ensures r == sl_new(*self) { unimplemented!() } }
impl TakeProfitParams { #[verifier::external_body] pub fn construct(&self) -> (r: DynTp) ensures r == tp_new(*self) { unimplemented!() } }
/*@struct juno/src/strategies/mod.rs StrategyMeta
@*/
/*@struct juno/src/trading/mod.rs TraderParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/mod.rs TradingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/traders.rs State
@*/
/*@struct juno/src/trading/traders.rs TradeInput
@*/
// ---- the inputs a backtest accepts ----
pub open spec fn filters_ok(f: Filters) -> bool { f.size.min.v() >= 0real && f.size.max.v() >= 0real && f.size.step.v() >= 0real && f.base_precision <= 300 && f.quote_precision <= 300 }
pub open spec fn candle_ok(c: Candle, i: Interval, b: BorrowInfo) -> bool { c.close.v() > 0real && c.time.0 + i.0 + b.interest_interval <= u64::MAX }
pub open spec fn input_ok(n: TradeInput, i: Interval) -> bool {
    filters_ok(*n.filters) && n.borrow_info.interest_interval > 0 && n.margin_multiplier >= 1 && n.candles@.len() < u32::MAX
    && (forall|k: int| 0 <= k < n.candles@.len() ==> candle_ok(#[trigger] n.candles@[k], i, *n.borrow_info))
    && (forall|k: int, l: int| 0 <= k <= l < n.candles@.len() ==> (#[trigger] n.candles@[k]).time.0 <= (#[trigger] n.candles@[l]).time.0) }

//@include hdr.rs
verus! {
//@subst_type HashMap<String, Vec<f64>> => SMap<Vec<Fl>>
//@subst_type HashMap<String, HashMap<Interval, Vec<Candle>>> => SMap<HashMap<Interval, Vec<Candle>>>
//@subst_type HashMap<String, Fees> => SMap<Fees>
//@subst_type HashMap<String, Filters> => SMap<Filters>
//@subst_type HashMap<String, HashMap<String, BorrowInfo>> => SMap<SMap<BorrowInfo>>
//@subst_type HashMap<String, AssetInfo> => SMap<AssetInfo>
//@subst_type fn(f64, f64) -> f64 => AggFn
//@subst_type Individual<Self::Chromosome> => Individual<TradingParams>
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include hmap.rs
//@include smap.rs
//@include candle.rs
//@include prim_ops.rs
/*@struct juno/src/filters.rs Price
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/filters.rs Size
attr:
    #[derive(Clone, Copy)]
@*/
//@include trdf.rs
//@include trd.rs
#[verifier::external_body] #[derive(Clone, Copy)] pub struct StrategyParams { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct StopLossParams { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct TakeProfitParams { x: u8 }
/*@struct juno/src/lib.rs AssetInfo
@*/
/*@struct juno/src/lib.rs ExchangeInfo
@*/
/*@struct juno/src/trading/mod.rs TraderParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/mod.rs TradingParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/traders.rs TradeInput
@*/
pub trait Chromosome {}
impl Chromosome for TradingParams {}
/*@struct juno/src/genetics/mod.rs Individual
@*/
/*@enum juno/src/trading/evaluation.rs EvaluationStatistic
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum juno/src/trading/evaluation.rs EvaluationAggregation
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/evaluation.rs SymbolCtx
@*/
/*@struct juno/src/trading/evaluation.rs BasicEvaluation
@*/
/*@struct juno/src/trading/evaluation.rs BasicEvaluationInput
@*/
impl Interval {
/*@aconst juno/src/primitives/interval.rs Interval::DAY_MS
@*/
}
// a function pointer to one of the three aggregations
#[derive(Clone, Copy)]
pub enum AggFn { Linear, Log10, Log10Factored }
pub fn agg_call(f: AggFn, acc: Fl, val: Fl) -> (r: Fl) ensures r.v() == step(f, acc.v(), val.v()) {
    match f { AggFn::Linear => sum_linear(acc, val), AggFn::Log10 => sum_log10(acc, val), AggFn::Log10Factored => sum_log10_factored(acc, val) } }

// ---- the specification ----
// one symbol's value v on the logarithmic scale
pub open spec fn scale(v: real) -> real { if v >= 0real { rlog10(1real + v) } else { -rpowf(10real, 1real - v) } }
pub open spec fn worth(f: AggFn, v: real) -> real { match f { AggFn::Linear => v, AggFn::Log10 => scale(v), AggFn::Log10Factored => scale(10real * v) } }
pub open spec fn step(f: AggFn, acc: real, v: real) -> real { acc + worth(f, v) }
pub open spec fn total(f: AggFn, s: Seq<real>) -> real decreases s.len() { if s.len() == 0 { 0real } else { step(f, total(f, s.drop_last()), s.last()) } }
// assumed of the mathematical log10 and 10^x
pub broadcast axiom fn ax_log10_mono(x: real, y: real) ensures 0real < x < y ==> #[trigger] rlog10(x) < #[trigger] rlog10(y);
pub axiom fn ax_log10_one() ensures rlog10(1real) == 0real;
pub broadcast axiom fn ax_pow10_mono(x: real, y: real) ensures x < y ==> #[trigger] rpowf(10real, x) < #[trigger] rpowf(10real, y);
pub axiom fn ax_pow10_one() ensures rpowf(10real, 1real) == 10real;

// each aggregation is strictly increasing in the symbol's value
pub proof fn lemma_worth_mono(f: AggFn, v: real, w: real) requires v < w ensures worth(f, v) < worth(f, w) {
    broadcast use ax_log10_mono, ax_pow10_mono; ax_log10_one(); ax_pow10_one();
    lemma_scale_mono(v, w); lemma_scale_mono(10real * v, 10real * w);
}
pub proof fn lemma_scale_mono(v: real, w: real) requires v < w ensures scale(v) < scale(w) {
    broadcast use ax_log10_mono, ax_pow10_mono; ax_log10_one(); ax_pow10_one();
    if v < 0real { lemma_penalty(v); }
    if w >= 0real { if w == 0real {} else { assert(rlog10(1real) < rlog10(1real + w)); } }
    if v >= 0real { assert(rlog10(1real + v) < rlog10(1real + w)); }
    if w < 0real { assert(rpowf(10real, 1real - w) < rpowf(10real, 1real - v)); }
}
// a loss costs at least ten, and more the larger it is
pub proof fn lemma_penalty(v: real) requires v < 0real ensures scale(v) <= -10real {
    broadcast use ax_pow10_mono; ax_pow10_one(); assert(rpowf(10real, 1real) < rpowf(10real, 1real - v)); }
// a value of zero leaves the fitness unchanged
pub proof fn lemma_zero(f: AggFn, acc: real) ensures step(f, acc, 0real) == acc { ax_log10_one(); assert(10real * 0real == 0real); assert(1real + 0real == 1real); }
// improving one symbol improves the fitness
pub proof fn lemma_total_mono(f: AggFn, s: Seq<real>, t: Seq<real>, i: int)
    requires s.len() == t.len(), 0 <= i < s.len(), s[i] < t[i], forall|k: int| 0 <= k < s.len() && k != i ==> s[k] == t[k]
    ensures total(f, s) < total(f, t)
    decreases s.len()
{
    if i == s.len() - 1 { assert(s.drop_last() =~= t.drop_last()); lemma_worth_mono(f, s.last(), t.last()); }
    else { assert(s.last() == t.last()); lemma_total_mono(f, s.drop_last(), t.drop_last(), i); }
}
pub open spec fn agg_of(a: EvaluationAggregation) -> AggFn {
    match a { EvaluationAggregation::Linear => AggFn::Linear, EvaluationAggregation::Log10 => AggFn::Log10, EvaluationAggregation::Log10Factored => AggFn::Log10Factored } }

/*@fn juno/src/trading/evaluation.rs sum_linear
ret: r
spec:
    ensures r.v() == step(AggFn::Linear, acc.v(), val.v()),
@*/
/*@fn juno/src/trading/evaluation.rs sum_log10
ret: r
spec:
    ensures r.v() == step(AggFn::Log10, acc.v(), val.v()),
@*/
/*@fn juno/src/trading/evaluation.rs sum_log10_factored
ret: r
spec:
    ensures r.v() == step(AggFn::Log10Factored, acc.v(), val.v()),
@*/

// ---- the backtest and its statistics: what they compute is the subject of C06 - C08, C14 and C15 ----
pub uninterp spec fn backtest(p: TradingParams, c: Seq<Candle>, e: Fees, f: Filters, b: BorrowInfo, mm: u32, q: real, long: bool, short: bool) -> TradingSummary;
pub uninterp spec fn the_profit(y: TradingSummary) -> real;
pub uninterp spec fn the_romad(y: TradingSummary) -> real;
pub uninterp spec fn the_sharpe(y: TradingSummary, s: Seq<char>, m: Map<Seq<char>, Seq<Fl>>, i: u64) -> real;
pub uninterp spec fn the_sortino(y: TradingSummary, s: Seq<char>, m: Map<Seq<char>, Seq<Fl>>, i: u64) -> real;
pub open spec fn pv(m: Map<Seq<char>, Vec<Fl>>) -> Map<Seq<char>, Seq<Fl>> { m.map_values(|v: Vec<Fl>| v@) }
/*@fn juno/src/trading/traders.rs trade
ret: r
flag: extern
spec:
    ensures r == backtest(*params, input.candles@, *input.fees, *input.filters, *input.borrow_info, input.margin_multiplier, input.quote.v(), input.long, input.short),
@*/
pub mod statistics { use super::*;
/*@fn juno/src/statistics/core.rs get_profit
ret: r
flag: extern
spec:
    ensures r.v() == the_profit(*summary),
@*/
/*@fn juno/src/statistics/core.rs get_return_over_max_drawdown
ret: r
flag: extern
spec:
    ensures r.v() == the_romad(*summary),
@*/
/*@fn juno/src/statistics/extended.rs get_sharpe_ratio
ret: r
flag: extern
spec:
    ensures r.v() == the_sharpe(*summary, symbol@, pv(prices@), interval.0),
@*/
/*@fn juno/src/statistics/extended.rs get_sortino_ratio
ret: r
flag: extern
spec:
    ensures r.v() == the_sortino(*summary, symbol@, pv(prices@), interval.0),
@*/
}

// one training symbol's data
pub struct Sym { pub name: Seq<char>, pub candles: Map<Interval, Seq<Candle>>, pub e: Fees, pub f: Filters, pub b: BorrowInfo }
pub open spec fn cv(m: Map<Interval, Vec<Candle>>) -> Map<Interval, Seq<Candle>> { m.map_values(|v: Vec<Candle>| v@) }
pub open spec fn sym(c: SymbolCtx) -> Sym { Sym { name: c.symbol@, candles: cv(c.interval_candles@), e: c.fees, f: c.filters, b: c.borrow_info } }
// the statistic of the backtest of one symbol: both directions, doubled margin, daily statistics
pub open spec fn value(st: EvaluationStatistic, y: Sym, p: TradingParams, q: real, prices: Map<Seq<char>, Seq<Fl>>, day: u64) -> real {
    let t = backtest(p, y.candles[p.trader.interval], y.e, y.f, y.b, 2, q, true, true);
    match st {
        EvaluationStatistic::Profit => the_profit(t),
        EvaluationStatistic::ReturnOverMaxDrawdown => the_romad(t),
        EvaluationStatistic::SharpeRatio => the_sharpe(t, y.name, prices, day),
        EvaluationStatistic::SortinoRatio => the_sortino(t, y.name, prices, day) } }
pub open spec fn values(v: BasicEvaluation, p: TradingParams) -> Seq<real> {
    Seq::new(v.symbol_ctxs@.len(), |i: int| value(v.evaluation_statistic, sym(v.symbol_ctxs@[i]), p, v.quote.v(), pv(v.prices@), v.stats_interval.0)) }
pub open spec fn fit(v: BasicEvaluation, p: TradingParams) -> real { total(v.evaluation_aggregation_fn, values(v, p)) }
pub open spec fn has(v: BasicEvaluation, p: TradingParams) -> bool { forall|i: int| 0 <= i < v.symbol_ctxs@.len() ==> (#[trigger] v.symbol_ctxs@[i]).interval_candles@.contains_key(p.trader.interval) }
pub open spec fn listed(i: BasicEvaluationInput, s: Seq<char>) -> bool {
    i.candles@.contains_key(s) && i.exchange_info.fees@.contains_key(s) && i.exchange_info.filters@.contains_key(s) && i.exchange_info.borrow_info@.contains_key(s)
    && i.exchange_info.borrow_info@[s]@.contains_key(base_of(s)) }
pub open spec fn sym_of(i: BasicEvaluationInput, s: Seq<char>) -> Sym {
    Sym { name: s, candles: cv(i.candles@[s]@), e: i.exchange_info.fees@[s], f: i.exchange_info.filters@[s], b: i.exchange_info.borrow_info@[s]@[base_of(s)] } }

// a fold with the aggregation over the symbols' values, from zero
pub broadcast proof fn lemma_fold<F: Fn(Fl, Fl) -> Fl>(f: F, s: Seq<Fl>, w: Seq<Fl>, v: BasicEvaluation, p: TradingParams)
    requires #[trigger] folds(f, s, w), w[0].v() == 0real, s.len() == v.symbol_ctxs@.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() == values(v, p)[i],
        forall|a: Fl, t: Fl, o: Fl| #[trigger] f.ensures((a, t), o) ==> o.v() == step(v.evaluation_aggregation_fn, a.v(), t.v()),
    ensures w.last().v() == #[trigger] fit(v, p)
{
    let h = v.evaluation_aggregation_fn;
    let x = values(v, p);
    lemma_fold_to(f, s, w, v, p, s.len() as int);
    assert(x.take(s.len() as int) =~= x);
}
pub proof fn lemma_fold_to<F: Fn(Fl, Fl) -> Fl>(f: F, s: Seq<Fl>, w: Seq<Fl>, v: BasicEvaluation, p: TradingParams, k: int)
    requires folds(f, s, w), w[0].v() == 0real, 0 <= k <= s.len(), s.len() == v.symbol_ctxs@.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() == values(v, p)[i],
        forall|a: Fl, t: Fl, o: Fl| #[trigger] f.ensures((a, t), o) ==> o.v() == step(v.evaluation_aggregation_fn, a.v(), t.v()),
    ensures w[k].v() == total(v.evaluation_aggregation_fn, values(v, p).take(k))
    decreases k
{
    let x = values(v, p);
    if k > 0 {
        lemma_fold_to(f, s, w, v, p, k - 1);
        assert(x.take(k).drop_last() =~= x.take(k - 1)); assert(x.take(k).last() == x[k - 1]);
        assert(f.ensures((w[k - 1], s[k - 1]), w[k - 1 + 1]));
    }
}
impl HashMap<Interval, Vec<Candle>> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures cv(r@) == cv(self@), r@.dom() == self@.dom() { unimplemented!() }
}
impl SMap<Vec<Fl>> {
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures pv(r@) == pv(self@), r@.dom() == self@.dom() { unimplemented!() }
}
impl BasicEvaluation {
/*@fn juno/src/trading/evaluation.rs BasicEvaluation::new
ret: r
index: candles, fees, filters, borrow_info, nested
subst: sum_linear => AggFn::Linear
subst: sum_log10 => AggFn::Log10
subst: sum_log10_factored => AggFn::Log10Factored
subst: input.symbols.iter() => refs_s(input.symbols)
subst: symbol.base_asset() => base_asset_(symbol)
subst: symbol.quote_asset() => quote_asset_(symbol)
spec:
    requires forall|i: int| 0 <= i < input.symbols@.len() ==> listed(*input, #[trigger] input.symbols@[i]@),
    ensures r.symbol_ctxs@.len() == input.symbols@.len(), forall|i: int| 0 <= i < input.symbols@.len() ==> sym(#[trigger] r.symbol_ctxs@[i]) == sym_of(*input, input.symbols@[i]@),
        forall|i: int| 0 <= i < input.symbols@.len() ==> (#[trigger] r.symbol_ctxs@[i]).interval_candles@.dom() == input.candles@[input.symbols@[i]@]@.dom(),
        r.quote == input.quote, r.evaluation_statistic == input.evaluation_statistic, r.evaluation_aggregation_fn == agg_of(input.evaluation_aggregation),
        r.stats_interval.0 == 86400000, pv(r.prices@) == pv(input.prices@),
closure 0:
    |$P0: &String| -> (o: SymbolCtx)
        requires listed(*input, $P0@)
        ensures sym(o) == sym_of(*input, $P0@), o.interval_candles@.dom() == input.candles@[$P0@]@.dom(),
@*/
/*@fn juno/src/trading/evaluation.rs BasicEvaluation::evaluate_symbol
ret: r
index: interval_candles
spec:
    requires symbol_ctx.interval_candles@.contains_key(chromosome.trader.interval),
    ensures r.v() == value(self.evaluation_statistic, sym(*symbol_ctx), *chromosome, self.quote.v(), pv(self.prices@), self.stats_interval.0),
@*/
/*@fn juno/src/trading/evaluation.rs BasicEvaluation::Evaluation::evaluate
subst: self.symbol_ctxs.iter() => refs(&self.symbol_ctxs)
subst: self.evaluation_aggregation_fn => |a_: Fl, v_: Fl| agg_call(self.evaluation_aggregation_fn, a_, v_)
spec:
    requires forall|i: int| 0 <= i < old(population)@.len() ==> has(*self, (#[trigger] old(population)@[i]).chromosome),
    ensures final(population)@.len() == old(population)@.len(),
        forall|i: int| 0 <= i < final(population)@.len() ==> (#[trigger] final(population)@[i]).chromosome == old(population)@[i].chromosome
            && final(population)@[i].fitness.v() == fit(*self, old(population)@[i].chromosome),
loop 0 inv:
    invariant i_0 <= population@.len(), population@.len() == old(population)@.len(),
        forall|i: int| 0 <= i < population@.len() ==> has(*self, (#[trigger] population@[i]).chromosome),
        forall|i: int| 0 <= i < population@.len() ==> (#[trigger] population@[i]).chromosome == old(population)@[i].chromosome,
        forall|i: int| 0 <= i < i_0 ==> (#[trigger] population@[i]).fitness.v() == fit(*self, old(population)@[i].chromosome),
    decreases population@.len() - i_0
loop 0 head:
    broadcast use lemma_fold;
closure 0:
    |$P0: &SymbolCtx| -> (o: Fl)
        requires $P0.interval_candles@.contains_key(ind.chromosome.trader.interval)
        ensures o.v() == value(self.evaluation_statistic, sym(*$P0), ind.chromosome, self.quote.v(), pv(self.prices@), self.stats_interval.0),
closure 1:
    |$P0: Fl, $P1: Fl| -> (o: Fl)
        ensures o.v() == step(self.evaluation_aggregation_fn, $P0.v(), $P1.v()),
@*/
}
pub fn refs_s<T>(v: &[T]) -> (r: It<&T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == v@[i]
{
    let mut o: Vec<&T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len() invariant i <= v@.len(), o@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] o@[k]) == v@[k] decreases v@.len() - i { o.push(&v[i]); i = i + 1; }
    It { v: o }
}
}
fn main(){}

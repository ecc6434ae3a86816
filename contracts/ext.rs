// ==== juno/src/math.rs, juno/src/statistics/extended.rs ====
/*@const juno/src/statistics/mod.rs SQRT_365
@*/
/*@enum juno/src/statistics/extended.rs Asset
attr:
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@*/
/*@struct juno/src/statistics/extended.rs ExtendedStatistics
@*/
pub mod exm { use super::*;
broadcast use fl_axioms;
pub type Ch = Seq<(Asset, Fl)>;
pub open spec fn neg(a: Fl) -> Fl { mkx(xneg(a.x())) }
pub open spec fn part(t: int, iv: Interval) -> int { spec_floor(t, iv.0 as int) }
pub open spec fn opening(p: Position) -> Ch { seq![(Asset::Quote, neg(p_cost(p))), (Asset::Base, base_in(p))] }
pub open spec fn closing(p: Position) -> Ch { seq![(Asset::Base, neg(base_out(p))), (Asset::Quote, p_gain(p))] }
pub open spec fn when(b: bool, c: Ch) -> Ch { if b { c } else { Seq::empty() } }
// what the positions change within the period starting at t
pub open spec fn changes(s: Seq<Position>, iv: Interval, t: int) -> Ch decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        changes(s.drop_last(), iv, t) + when(part(p_open_time(s.last()), iv) == t, opening(s.last())) + when(part(p_close_time(s.last()), iv) == t, closing(s.last())) } }
// a holding of asset a after the changes
pub open spec fn hold(c: Ch, a: Asset, h: XR) -> XR decreases c.len() {
    if c.len() == 0 { h } else if c.last().0 == a { xadd(hold(c.drop_last(), a, h), c.last().1.x()) } else { hold(c.drop_last(), a, h) } }
pub open spec fn holding(y: TradingSummary, iv: Interval, a: Asset, k: int) -> XR decreases k {
    if k <= 0 { if a == Asset::Base { XR::R(0real) } else { y.quote.x() } }
    else { hold(changes(y.positions@, iv, part(y.start.0 as int, iv) + (k - 1) * iv.0), a, holding(y, iv, a, k - 1)) } }
// the portfolio after k periods, at the prices of their end
pub open spec fn worth(y: TradingSummary, iv: Interval, b: XS, q: XS, k: int) -> XR {
    if k <= 0 { xmul(y.quote.x(), q[0].x()) } else { xadd(xmul(holding(y, iv, Asset::Base, k), b[k].x()), xmul(holding(y, iv, Asset::Quote, k), q[k].x())) } }
pub open spec fn periods(y: TradingSummary, iv: Interval) -> int { (part(y.end.0 as int, iv) - part(y.start.0 as int, iv)) / iv.0 as int }
pub open spec fn log_return(a: XR, b: XR) -> Fl { mkx(xln(xadd(xsub(xdiv(b, a), XR::R(1real)), XR::R(1real)))) }
pub open spec fn worths(y: TradingSummary, iv: Interval, b: XS, q: XS, n: int) -> Seq<XR> { Seq::new((n + 1) as nat, |k: int| worth(y, iv, b, q, k)) }
// the returns of consecutive values
pub open spec fn rets(p: Seq<XR>) -> XS { Seq::new((p.len() - 1) as nat, |i: int| log_return(p[i], p[i + 1])) }
pub open spec fn loss() -> spec_fn(Fl) -> bool { |v: Fl| xlt(v.x(), XR::R(0real)) }
pub open spec fn ann(g: XS) -> XR { xmul(XR::R(365real), xmean(g)) }
pub open spec fn or_zero(a: XR, b: XR) -> XR { if xdiv(a, b) is R { xdiv(a, b) } else { XR::R(0real) } }
pub open spec fn per_risk(ret: XR, g: XS) -> XR { if ret is Nan || ret == XR::R(0real) { XR::R(0real) } else { or_zero(ret, xmul(XR::R(SQRT_365_V()), xsdev(g))) } }
pub open spec fn sharpe(g: XS) -> XR { per_risk(ann(g), g) }
pub open spec fn sortino(g: XS) -> XR { per_risk(ann(g), kept(g, loss())) }
pub open spec fn all_fin(s: XS) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).fin() }
// the prices cover the summary
pub open spec fn covered(y: TradingSummary, symbol: &str, p: Prices, iv: Interval) -> bool {
    0 < iv.0 < WEEK_MS && y.start.0 <= y.end.0 && periods(y, iv) + 1 <= usize::MAX
    && p@.contains_key(symbol.base()) && p@.contains_key(symbol.quote())
    && p@[symbol.base()].len() > periods(y, iv) && p@[symbol.quote()].len() > periods(y, iv)
    && all_fin(p@[symbol.base()]) && all_fin(p@[symbol.quote()]) }
pub open spec fn the_returns(y: TradingSummary, symbol: &str, p: Prices, iv: Interval) -> XS {
    rets(worths(y, iv, p@[symbol.base()], p@[symbol.quote()], periods(y, iv))) }
pub open spec fn chg_of(m: Map<Timestamp, Vec<(Asset, Fl)>>, t: int) -> Ch { if m.contains_key(Timestamp(t as u64)) { m[Timestamp(t as u64)]@ } else { Seq::empty() } }
pub open spec fn has(m: Map<Asset, Fl>, a: Asset, v: XR) -> bool { m.contains_key(a) && m[a].x() == v }
pub open spec fn holds(m: Map<Asset, Fl>, b: XR, q: XR) -> bool { has(m, Asset::Base, b) && has(m, Asset::Quote, q) }
pub broadcast proof fn lemma_two(ks: Seq<Asset>, vs: XS, m: Map<Asset, Fl>)
    requires #[trigger] lists(ks, vs, m), m.contains_key(Asset::Base), m.contains_key(Asset::Quote)
    ensures xsum(vs) == xadd(m[Asset::Base].x(), m[Asset::Quote].x())
{
    assert(ks.contains(Asset::Base)); assert(ks.contains(Asset::Quote));
    let i = choose|i: int| 0 <= i < ks.len() && ks[i] == Asset::Base;
    let j = choose|j: int| 0 <= j < ks.len() && ks[j] == Asset::Quote;
    assert(vs[i] == m[ks[i]]); assert(vs[j] == m[ks[j]]);
    if ks.len() > 2 {
        let k = if i != 0 && j != 0 { 0int } else if i != 1 && j != 1 { 1int } else { 2int };
        assert(ks[k] is Base || ks[k] is Quote);
        assert(false);
    }
    assert(ks.len() == 2);
    reveal_with_fuel(xsum, 3);
    assert(vs.drop_last().last() == vs[0]);
}
// the periods tile the time between the floors of start and end
pub proof fn lemma_period(y: TradingSummary, iv: Interval, k: int)
    requires 0 < iv.0 < WEEK_MS, y.start.0 <= y.end.0
    ensures 0 <= part(y.start.0 as int, iv) <= part(y.end.0 as int, iv) <= u64::MAX, periods(y, iv) >= 0,
        part(y.end.0 as int, iv) == part(y.start.0 as int, iv) + periods(y, iv) * iv.0,
        0 <= k ==> k * iv.0 >= 0, 0 <= k < periods(y, iv) ==> part(y.start.0 as int, iv) + k * iv.0 + iv.0 <= part(y.end.0 as int, iv),
        (k + 1) * iv.0 == k * iv.0 + iv.0,
{
    let m = iv.0 as int;
    let (a, b) = (y.start.0 as int, y.end.0 as int);
    lemma_fundamental_div_mod(a, m); lemma_fundamental_div_mod(b, m); lemma_mod_bound(a, m); lemma_mod_bound(b, m);
    lemma_div_is_ordered(a, b, m); lemma_div_pos_is_pos(a, m);
    assert(part(a, iv) == m * (a / m)); assert(part(b, iv) == m * (b / m));
    let n = b / m - a / m;
    assert(part(b, iv) - part(a, iv) == n * m) by (nonlinear_arith) requires part(a, iv) == m * (a / m), part(b, iv) == m * (b / m), n == b / m - a / m;
    lemma_div_multiples_vanish(n, m);
    assert(m * n == n * m) by (nonlinear_arith);
    assert(part(a, iv) >= 0) by (nonlinear_arith) requires part(a, iv) == m * (a / m), a / m >= 0, m > 0;
    assert(n * m >= 0) by (nonlinear_arith) requires n >= 0, m > 0;
    if 0 <= k { assert(k * m >= 0) by (nonlinear_arith) requires k >= 0, m > 0; }
    assert((k + 1) * m == k * m + m) by (nonlinear_arith);
    if 0 <= k < n { assert((k + 1) * m <= n * m) by (nonlinear_arith) requires k + 1 <= n, m > 0; }
}
pub open spec fn xs_of(s: XS) -> Seq<XR> { Seq::new(s.len(), |i: int| s[i].x()) }
// a capacity that is asked for is the capacity one gets
pub uninterp spec fn cap_of(v: Vec<Fl>) -> int;
#[verifier::external_body]
pub fn vec_cap(n: usize) -> (r: Vec<Fl>) ensures r@.len() == 0, cap_of(r) == n { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vec_capacity(v: &Vec<Fl>) -> (r: usize) ensures r == cap_of(*v) { v.capacity() }
pub broadcast proof fn lemma_rets(p: Seq<XR>, g: XS)
    requires p.len() > 0, g.len() == p.len() - 1, forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).x() == log_return(p[i], p[i + 1]).x()
    ensures #![trigger rets(p), xmean(g)] g == rets(p)
{ assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] == rets(p)[i] by { assert(mkx(g[i].x()) == g[i]); } assert(g =~= rets(p)); }
pub open spec fn sums_to(ms: Seq<Map<Asset, Fl>>, v: XS) -> bool { v.len() == ms.len() && forall|k: int| 0 <= k < v.len() ==> (#[trigger] v[k]).x() == xadd(ms[k][Asset::Base].x(), ms[k][Asset::Quote].x()) }
pub broadcast proof fn lemma_worths(y: TradingSummary, iv: Interval, b: XS, q: XS, n: int, v: XS)
    requires n >= 0, v.len() == n + 1, b.len() > n, q.len() > n, all_fin(b), all_fin(q),
        forall|k: int| 0 <= k <= n ==> (#[trigger] v[k]).x() == xadd(xmul(holding(y, iv, Asset::Base, k), b[k].x()), xmul(holding(y, iv, Asset::Quote, k), q[k].x())),
    ensures #[trigger] xs_of(v) == #[trigger] worths(y, iv, b, q, n)
{
    assert(b[0].fin());
    assert(v[0].x() == xadd(xmul(XR::R(0real), b[0].x()), xmul(y.quote.x(), q[0].x())));
    assert(xmul(XR::R(0real), b[0].x()) == XR::R(0real)) by { let p = b[0].x()->R_0; assert(0real * p == 0real) by (nonlinear_arith); }
    assert(xadd(XR::R(0real), xmul(y.quote.x(), q[0].x())) == xmul(y.quote.x(), q[0].x()));
    assert(xs_of(v) =~= worths(y, iv, b, q, n));
}
pub broadcast proof fn lemma_sqs(m: XR, s: XS, t: XS)
    requires t.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] t[i] == sq_to(m, s[i])
    ensures #[trigger] xsum(t) == xsum(#[trigger] sqs(m, s))
{ assert(t =~= sqs(m, s)); }
}
pub use exm::*;
/*@fn juno/src/math.rs mean
ret: r
spec:
    ensures r.x() == xmean(data@),
@*/
/*@fn juno/src/math.rs std_deviation
ret: r
spec:
    ensures r.x() == xsdev(data@),
head:
    broadcast use lemma_sqs;
closure 0:
    |$P0: Fl| -> (o: Fl) ensures o == sq_to(mean.x(), $P0),
@*/
/*@fn juno/src/statistics/extended.rs finite_ratio
ret: r
spec:
    ensures r.x() == or_zero(annualized_return.x(), annualized_risk.x()), r.fin(),
@*/
/*@fn juno/src/statistics/extended.rs calculate_statistics
ret: r
subst: Vec::with_capacity(performance.len() - 1) => vec_cap(performance.len() - 1)
subst: a_returns.capacity() => vec_capacity(&a_returns)
spec:
    requires performance@.len() > 0,
    ensures r.annualized_return.x() == ann(rets(xs_of(performance@))), r.sharpe_ratio.x() == sharpe(rets(xs_of(performance@))), r.sortino_ratio.x() == sortino(rets(xs_of(performance@))),
        r.sharpe_ratio.fin(), r.sortino_ratio.fin(),
head:
    broadcast use lemma_rets;
    let ghost p = performance@;
loop 0 inv:
    invariant p == performance@, p.len() > 0, e_0 == p.len() - 1, i_0 <= e_0, a_returns@.len() == i_0,
        forall|k: int| 0 <= k < i_0 ==> (#[trigger] a_returns@[k]).x() == xsub(xdiv(p[k + 1].x(), p[k].x()), XR::R(1real)),
    decreases e_0 - i_0
closure 0:
    |$P0: Fl| -> (o: Fl) ensures o.x() == xln(xadd($P0.x(), XR::R(1real))),
closure 1:
    |$P0: &Fl| -> (o: bool) ensures o == loss()(*$P0),
@*/
/*@fn juno/src/statistics/extended.rs map_period_deltas_from_summary
ret: r
spec:
    requires 0 < interval.0 < WEEK_MS,
    ensures forall|t: int| 0 <= t <= u64::MAX ==> #[trigger] chg_of(r@, t) == changes(summary.positions@, interval, t),
head:
    let ghost s = summary.positions@;
    proof { assert(s.take(0) =~= Seq::empty()); assert(s.take(s.len() as int) =~= s); }
loop 0 inv:
    invariant s == summary.positions@, s_0@ == s, i_0 <= s.len(), 0 < interval.0 < WEEK_MS,
        forall|t: int| 0 <= t <= u64::MAX ==> #[trigger] chg_of(period_deltas@, t) == changes(s.take(i_0 as int), interval, t),
    decreases s.len() - i_0
loop 0 head:
    let ghost m0 = period_deltas@;
    proof { assert(s.take(i_0 as int).drop_last() =~= s.take(i_0 - 1)); assert(s.take(i_0 as int).last() == s[i_0 - 1]); }
loop 0 tail:
    proof {
        assert forall|t: int| 0 <= t <= u64::MAX implies #[trigger] chg_of(period_deltas@, t) == changes(s.take(i_0 as int), interval, t) by {
            assert(chg_of(m0, t) == changes(s.take(i_0 - 1), interval, t));
            assert(chg_of(period_deltas@, t) =~= changes(s.take(i_0 as int), interval, t));
        }
    }
@*/
/*@fn juno/src/statistics/extended.rs get_asset_performances_from_holdings
ret: r
index: asset_holdings
spec:
    requires asset_holdings@.contains_key(Asset::Base), asset_holdings@.contains_key(Asset::Quote),
    ensures holds(r@, xmul(asset_holdings@[Asset::Base].x(), base_price.x()), xmul(asset_holdings@[Asset::Quote].x(), quote_price.x())),
loop 0 inv:
    invariant asset_holdings@.contains_key(Asset::Base), asset_holdings@.contains_key(Asset::Quote),
        s_0@ =~= seq![Asset::Base, Asset::Quote], i_0 <= 2,
        i_0 >= 1 ==> has(asset_performances@, Asset::Base, xmul(asset_holdings@[Asset::Base].x(), base_price.x())),
        i_0 >= 2 ==> has(asset_performances@, Asset::Quote, xmul(asset_holdings@[Asset::Quote].x(), quote_price.x())),
    decreases 2 - i_0
@*/
/*@fn juno/src/statistics/extended.rs get_asset_performance
ret: r
subst: *asset_holdings.entry(*asset).or_insert(0.0) += size => { let h_ = asset_holdings.entry(*asset).or_insert(0.0); *h_ = *h_ + *size; }
spec:
    requires covered(*summary, symbol, *prices, interval),
    ensures r@.len() == periods(*summary, interval) + 1,
        forall|k: int| 0 <= k < r@.len() ==> holds((#[trigger] r@[k])@, xmul(holding(*summary, interval, Asset::Base, k), prices@[symbol.base()][k].x()), xmul(holding(*summary, interval, Asset::Quote, k), prices@[symbol.quote()][k].x())),
head:
    let ghost y = *summary;
    let ghost (bp, qp) = (prices@[symbol.base()], prices@[symbol.quote()]);
    let ghost st = part(summary.start.0 as int, interval);
    let ghost c = summary.positions@;
    proof { lemma_period(y, interval, 0); }
loop 0 inv:
    invariant
        covered(y, symbol, *prices, interval), y == *summary, bp == prices@[symbol.base()], qp == prices@[symbol.quote()], st == part(y.start.0 as int, interval), c == y.positions@,
        base_prices@ == bp, quote_prices@ == qp, e_0 == periods(y, interval), i_0 <= e_0, start.0 == st,
        forall|t: int| 0 <= t <= u64::MAX ==> #[trigger] chg_of(summary_period_deltas@, t) == changes(c, interval, t),
        holds(asset_holdings@, holding(y, interval, Asset::Base, i_0 as int), holding(y, interval, Asset::Quote, i_0 as int)),
        period_asset_performances@.len() == i_0 + 1,
        forall|k: int| 0 <= k <= i_0 ==> holds((#[trigger] period_asset_performances@[k])@, xmul(holding(y, interval, Asset::Base, k), bp[k].x()), xmul(holding(y, interval, Asset::Quote, k), qp[k].x())),
    decreases e_0 - i_0
loop 0 head:
    proof { lemma_period(y, interval, i_0 - 1); assert(chg_of(summary_period_deltas@, st + (i_0 - 1) * interval.0) == changes(c, interval, st + (i_0 - 1) * interval.0)); }
    let ghost ch = changes(c, interval, st + (i_0 - 1) * interval.0);
    let ghost (hb, hq) = (holding(y, interval, Asset::Base, i_0 - 1), holding(y, interval, Asset::Quote, i_0 - 1));
    proof { assert(ch.take(ch.len() as int) =~= ch); assert(ch.take(0) =~= Seq::empty()); }
loop 1 inv:
    invariant s_1@ == ch, i_1 <= ch.len(), holds(asset_holdings@, hold(ch.take(i_1 as int), Asset::Base, hb), hold(ch.take(i_1 as int), Asset::Quote, hq)),
    decreases s_1@.len() - i_1
loop 1 head:
    proof { assert(ch.take(i_1 as int).drop_last() =~= ch.take(i_1 - 1)); assert(ch.take(i_1 as int).last() == ch[i_1 - 1]); }
@*/
impl ExtendedStatistics {
/*@fn juno/src/statistics/extended.rs ExtendedStatistics::compose
ret: r
subst: asset_performance.iter() => refs(&asset_performance)
spec:
    requires covered(*summary, symbol, *prices, interval),
    ensures r.sharpe_ratio.x() == sharpe(the_returns(*summary, symbol, *prices, interval)), r.sortino_ratio.x() == sortino(the_returns(*summary, symbol, *prices, interval)),
        r.annualized_return.x() == ann(the_returns(*summary, symbol, *prices, interval)), r.sharpe_ratio.fin(), r.sortino_ratio.fin(),
head:
    broadcast use lemma_two, lemma_worths;
    proof { lemma_period(*summary, interval, 0); }
closure 0:
    |$P0: &HashMap<Asset, Fl>| -> (o: Fl)
        requires $P0@.contains_key(Asset::Base), $P0@.contains_key(Asset::Quote)
        ensures o.x() == xadd($P0@[Asset::Base].x(), $P0@[Asset::Quote].x()),
@*/
}
/*@fn juno/src/statistics/extended.rs get_sharpe_ratio
ret: r
index: prices
spec:
    requires covered(*summary, symbol, *prices, interval),
    ensures r.x() == sharpe(the_returns(*summary, symbol, *prices, interval)), r.fin(),
head:
    broadcast use lemma_sqs;
    let ghost y = *summary;
    let ghost (bp, qp) = (prices@[symbol.base()], prices@[symbol.quote()]);
    let ghost st = part(summary.start.0 as int, interval);
    let ghost c = summary.positions@;
    let ghost n = periods(y, interval);
    let ghost w = worths(y, interval, bp, qp, n);
    proof { lemma_period(y, interval, 0); }
loop 0 inv:
    invariant
        covered(y, symbol, *prices, interval), y == *summary, bp == prices@[symbol.base()], qp == prices@[symbol.quote()], st == part(y.start.0 as int, interval), c == y.positions@,
        n == periods(y, interval), w == worths(y, interval, bp, qp, n), base_prices@ == bp, quote_prices@ == qp,
        0 <= n_0 <= n, i_0 == st + n_0 * interval.0, e_0 == st + n * interval.0, st_0 == interval.0,
        forall|t: int| 0 <= t <= u64::MAX ==> #[trigger] chg_of(period_deltas@, t) == changes(c, interval, t),
        base_holding.x() == holding(y, interval, Asset::Base, n_0 as int), quote_holding.x() == holding(y, interval, Asset::Quote, n_0 as int),
        prev_performance.x() == worth(y, interval, bp, qp, n_0 as int),
        g_returns@ == rets(w).take(n_0 as int), sum_g_returns.x() == xsum(g_returns@),
    decreases n - n_0
loop 0 head:
    let ghost k = n_0 - 1;
    proof { lemma_period(y, interval, k); assert(chg_of(period_deltas@, st + k * interval.0) == changes(c, interval, st + k * interval.0)); }
    let ghost ch = changes(c, interval, st + k * interval.0);
    let ghost (hb, hq) = (holding(y, interval, Asset::Base, k), holding(y, interval, Asset::Quote, k));
    let ghost g0 = g_returns@;
    proof { assert(ch.take(ch.len() as int) =~= ch); assert(ch.take(0) =~= Seq::empty()); }
loop 0 tail:
    proof { assert(rets(w).take(n_0 as int).drop_last() =~= g0); assert(rets(w).take(n_0 as int).last() == rets(w)[k]); assert(g_returns@ =~= rets(w).take(n_0 as int)); }
loop 1 inv:
    invariant s_1@ == ch, i_1 <= ch.len(), base_holding.x() == hold(ch.take(i_1 as int), Asset::Base, hb), quote_holding.x() == hold(ch.take(i_1 as int), Asset::Quote, hq),
    decreases s_1@.len() - i_1
loop 1 head:
    proof { assert(ch.take(i_1 as int).drop_last() =~= ch.take(i_1 - 1)); assert(ch.take(i_1 as int).last() == ch[i_1 - 1]); }
loop 0 post:
    proof { if n_0 < n { lemma_period(y, interval, n_0 as int); } assert(g_returns@ == rets(w).take(n)); }
let sum_g_returns:
    proof { assert(rets(w).take(0) =~= Seq::empty()); }
let mean_g_returns:
    proof { lemma_period(y, interval, n - 1); assert(rets(w).take(n) =~= rets(w)); assert(rets(w).len() == n); assert(mean_g_returns.x() == xmean(rets(w))); assert(rets(w) == the_returns(*summary, symbol, *prices, interval)); }
closure 0:
    |$P0: Fl| -> (o: Fl) ensures o == sq_to(mean_g_returns.x(), $P0),
@*/

/*@fn juno/src/statistics/extended.rs get_sortino_ratio
ret: r
index: prices
spec:
    requires covered(*summary, symbol, *prices, interval), periods(*summary, interval) <= i32::MAX,
    ensures r.x() == sortino(the_returns(*summary, symbol, *prices, interval)), r.fin(),
head:
    broadcast use lemma_sqs;
    let ghost y = *summary;
    let ghost (bp, qp) = (prices@[symbol.base()], prices@[symbol.quote()]);
    let ghost st = part(summary.start.0 as int, interval);
    let ghost c = summary.positions@;
    let ghost n = periods(y, interval);
    let ghost w = worths(y, interval, bp, qp, n);
    proof { lemma_period(y, interval, 0); }
loop 0 inv:
    invariant
        covered(y, symbol, *prices, interval), y == *summary, bp == prices@[symbol.base()], qp == prices@[symbol.quote()], st == part(y.start.0 as int, interval), c == y.positions@,
        n == periods(y, interval), w == worths(y, interval, bp, qp, n), base_prices@ == bp, quote_prices@ == qp,
        0 <= n_0 <= n, i_0 == st + n_0 * interval.0, e_0 == st + n * interval.0, st_0 == interval.0,
        forall|t: int| 0 <= t <= u64::MAX ==> #[trigger] chg_of(period_deltas@, t) == changes(c, interval, t),
        base_holding.x() == holding(y, interval, Asset::Base, n_0 as int), quote_holding.x() == holding(y, interval, Asset::Quote, n_0 as int),
        prev_performance.x() == worth(y, interval, bp, qp, n_0 as int),
        g_returns@ == rets(w).take(n_0 as int), sum_g_returns.x() == xsum(g_returns@), n <= i32::MAX,
        sum_neg_g_returns.x() == xsum(kept(g_returns@, loss())), len_neg_g_returns == kept(g_returns@, loss()).len(), len_neg_g_returns <= n_0,
    decreases n - n_0
loop 0 head:
    let ghost k = n_0 - 1;
    proof { lemma_period(y, interval, k); assert(chg_of(period_deltas@, st + k * interval.0) == changes(c, interval, st + k * interval.0)); }
    let ghost ch = changes(c, interval, st + k * interval.0);
    let ghost (hb, hq) = (holding(y, interval, Asset::Base, k), holding(y, interval, Asset::Quote, k));
    let ghost g0 = g_returns@;
    proof { assert(ch.take(ch.len() as int) =~= ch); assert(ch.take(0) =~= Seq::empty()); }
loop 0 tail:
    proof { assert(g_returns@.drop_last() =~= g0); assert(kept(g0, loss()).push(g_returns@.last()).drop_last() =~= kept(g0, loss())); }
    proof { assert(rets(w).take(n_0 as int).drop_last() =~= g0); assert(rets(w).take(n_0 as int).last() == rets(w)[k]); assert(g_returns@ =~= rets(w).take(n_0 as int)); }
loop 1 inv:
    invariant s_1@ == ch, i_1 <= ch.len(), base_holding.x() == hold(ch.take(i_1 as int), Asset::Base, hb), quote_holding.x() == hold(ch.take(i_1 as int), Asset::Quote, hq),
    decreases s_1@.len() - i_1
loop 1 head:
    proof { assert(ch.take(i_1 as int).drop_last() =~= ch.take(i_1 - 1)); assert(ch.take(i_1 as int).last() == ch[i_1 - 1]); }
loop 0 post:
    proof { if n_0 < n { lemma_period(y, interval, n_0 as int); } assert(g_returns@ == rets(w).take(n)); }
let sum_g_returns:
    proof { assert(rets(w).take(0) =~= Seq::empty()); }
let mean_g_returns:
    proof { lemma_period(y, interval, n - 1); assert(rets(w).take(n) =~= rets(w)); assert(rets(w).len() == n); assert(mean_g_returns.x() == xmean(rets(w))); assert(rets(w) == the_returns(*summary, symbol, *prices, interval)); }
closure 0:
    |$P0: &Fl| -> (o: bool) ensures o == loss()(*$P0),
closure 1:
    |$P0: Fl| -> (o: Fl) ensures o == sq_to(mean_neg_g_returns.x(), $P0),
@*/

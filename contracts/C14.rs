//@include hdr.rs
verus! {
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include rseq.rs
//@include candle.rs
//@include prim_ops.rs
//@include trd.rs
//@contracts pos.rs
//@contracts pos6.rs
//@contracts ann.rs

// ==== what the statistics are, over a sequence of positions and the initial capital ====
pub open spec fn times_ok(s: Seq<Position>) -> bool { forall|i: int| 0 <= i < s.len() ==> p_open_time(#[trigger] s[i]) <= p_close_time(s[i]) }
pub open spec fn held(s: Seq<Position>) -> int decreases s.len() { if s.len() == 0 { 0 } else { held(s.drop_last()) + (p_close_time(s.last()) - p_open_time(s.last())) } }
pub open spec fn won(p: Position) -> bool { p_profit(p) >= 0real }
pub open spec fn wins(s: Seq<Position>) -> int decreases s.len() { if s.len() == 0 { 0 } else { wins(s.drop_last()) + (if won(s.last()) { 1int } else { 0 }) } }
pub open spec fn p_reason(p: Position) -> CloseReason { match p { Position::Long(p) => p.close_reason, Position::Short(p) => p.close_reason } }
pub open spec fn closed_by(s: Seq<Position>, r: CloseReason) -> int decreases s.len() { if s.len() == 0 { 0 } else { closed_by(s.drop_last(), r) + (if p_reason(s.last()) == r { 1int } else { 0 }) } }
// the highest the capital has been
pub open spec fn peak(q: real, s: Seq<Position>) -> real decreases s.len() { if s.len() == 0 { q } else { rmax(peak(q, s.drop_last()), q + booked(s)) } }
// how far below the peak the capital is
pub open spec fn drawdown(q: real, s: Seq<Position>) -> real { 1real - (q + booked(s)) / peak(q, s) }
pub open spec fn max_dd(q: real, s: Seq<Position>) -> real decreases s.len() { if s.len() == 0 { 0real } else { rmax(max_dd(q, s.drop_last()), drawdown(q, s)) } }
pub open spec fn sum_dd(q: real, s: Seq<Position>) -> real decreases s.len() { if s.len() == 0 { 0real } else { sum_dd(q, s.drop_last()) + drawdown(q, s) } }
pub open spec fn per(x: real, n: int) -> real { if n == 0 { 0real } else { x / (n as real) } }
pub open spec fn rmd(q: real, s: Seq<Position>) -> real { if max_dd(q, s) == 0real { 0real } else { (booked(s) / q) / max_dd(q, s) } }
pub open spec fn in_range(y: TradingSummary) -> bool {
    y.quote.v() > 0real && y.start.0 <= y.end.0 && times_ok(y.positions@) && held(y.positions@) <= u64::MAX && y.positions@.len() <= u32::MAX }

pub proof fn lemma_peak(q: real, s: Seq<Position>)
    requires q > 0real
    ensures peak(q, s) >= q, peak(q, s) >= q + booked(s), drawdown(q, s) >= 0real
    decreases s.len()
{
    if s.len() > 0 { lemma_peak(q, s.drop_last()); }
    let (c, p) = (q + booked(s), peak(q, s));
    assert(c / p <= 1real) by (nonlinear_arith) requires c <= p, p > 0real;
}
// every drawdown is non-negative, the largest bounds their mean
pub proof fn lemma_drawdowns(q: real, s: Seq<Position>)
    requires q > 0real
    ensures 0real <= sum_dd(q, s) <= max_dd(q, s) * s.len() as real, max_dd(q, s) >= 0real, 0real <= per(sum_dd(q, s), s.len() as int) <= max_dd(q, s)
    decreases s.len()
{
    if s.len() > 0 {
        let (t, n, m, d) = (s.drop_last(), s.len() as real, max_dd(q, s), sum_dd(q, s));
        lemma_drawdowns(q, t); lemma_peak(q, s);
        let (m0, d0, k) = (max_dd(q, t), sum_dd(q, t), t.len() as real);
        assert(n == k + 1real);
        assert(d <= m * n) by (nonlinear_arith) requires d0 <= m0 * k, m0 <= m, k >= 0real, d - d0 <= m, n == k + 1real;
        assert(0real <= d / n <= m) by (nonlinear_arith) requires 0real <= d <= m * n, n > 0real;
    }
}
// won and lost positions are all positions
pub proof fn lemma_counts(s: Seq<Position>)
    ensures 0 <= wins(s) <= s.len(), forall|r: CloseReason| 0 <= #[trigger] closed_by(s, r) <= s.len()
    decreases s.len()
{
    if s.len() > 0 { let t = s.drop_last(); lemma_counts(t);
        assert forall|r: CloseReason| 0 <= #[trigger] closed_by(s, r) <= s.len() by { assert(0 <= closed_by(t, r) <= t.len()); } }
}
pub proof fn lemma_held(s: Seq<Position>, i: int)
    requires 0 <= i <= s.len(), times_ok(s)
    ensures 0 <= held(s.take(i)) <= held(s)
    decreases s.len()
{
    assert(s.take(s.len() as int) =~= s);
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|k: int| 0 <= k < t.len() implies p_open_time(#[trigger] t[k]) <= p_close_time(t[k]) by { assert(t[k] == s[k]); }
        lemma_held(t, if i == s.len() { t.len() as int } else { i });
        assert(t.take(t.len() as int) =~= t);
        if i < s.len() { assert(t.take(i) =~= s.take(i)); }
        assert(p_open_time(s[s.len() - 1]) <= p_close_time(s[s.len() - 1]));
    }
}

pub broadcast proof fn lemma_total(m: FS, s: Seq<Position>)
    requires m.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] m[i]).v() == p_profit(s[i])
    ensures #[trigger] fsum(m) == #[trigger] booked(s)
    decreases s.len()
{
    if s.len() > 0 {
        let (n, t) = (m.drop_last(), s.drop_last());
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] n[i]).v() == p_profit(t[i]) by { assert(n[i] == m[i]); assert(t[i] == s[i]); }
        lemma_total(n, t);
        assert(m[m.len() - 1].v() == p_profit(s[s.len() - 1]));
    }
}

// ==== juno/src/statistics/core.rs ====
/*@struct juno/src/statistics/core.rs CoreStatistics
@*/
impl CoreStatistics {
/*@fn juno/src/statistics/core.rs CoreStatistics::compose
ret: r
spec:
    requires in_range(*summary),
    ensures r.start == summary.start, r.end == summary.end, r.duration.0 == summary.end.0 - summary.start.0,
        r.cost == summary.quote, r.profit.v() == booked(summary.positions@), r.gain.v() == r.cost.v() + r.profit.v(),
        r.roi.v() == r.profit.v() / r.cost.v(), r.annualized_roi.v() == the_annual(r.duration.0 as int, r.roi.v()),
        r.num_positions == summary.positions@.len(), r.num_positions_in_profit == wins(summary.positions@), r.num_positions_in_profit + r.num_positions_in_loss == r.num_positions,
        r.num_stop_losses == closed_by(summary.positions@, CloseReason::StopLoss), r.num_take_profits == closed_by(summary.positions@, CloseReason::TakeProfit),
        r.mean_position_profit.v() == per(booked(summary.positions@), summary.positions@.len() as int),
        r.mean_position_duration.0 == (if summary.positions@.len() == 0 { 0 } else { held(summary.positions@) / summary.positions@.len() as int }),
        r.max_drawdown.v() == max_dd(summary.quote.v(), summary.positions@), r.mean_drawdown.v() == per(sum_dd(summary.quote.v(), summary.positions@), summary.positions@.len() as int),
        0real <= r.mean_drawdown.v() <= r.max_drawdown.v(),
        r.return_over_max_drawdown.v() == rmd(summary.quote.v(), summary.positions@),
head:
    let ghost q = summary.quote.v();
    let ghost s = summary.positions@;
    proof { assert(s.take(0) =~= Seq::empty()); lemma_drawdowns(q, s); lemma_counts(s); lemma_held(s, 0); }
loop 0 inv:
    invariant
    i_0 <= s_0@.len(), s_0@ == s,
    quote.v() == q + booked(s.take(i_0 as int)), max_quote.v() == peak(q, s.take(i_0 as int)), profit.v() == booked(s.take(i_0 as int)),
    total_drawdown.v() == sum_dd(q, s.take(i_0 as int)), max_drawdown.v() == max_dd(q, s.take(i_0 as int)),
    total_position_duration.0 == held(s.take(i_0 as int)),
    num_positions_in_profit == wins(s.take(i_0 as int)), num_positions_in_profit + num_positions_in_loss == i_0,
    num_stop_losses == closed_by(s.take(i_0 as int), CloseReason::StopLoss), num_take_profits == closed_by(s.take(i_0 as int), CloseReason::TakeProfit),
    s == summary.positions@, q > 0real, in_range(*summary),
    decreases s_0@.len() - i_0
loop 0 head:
    let ghost t = s.take(i_0 as int);
    proof { assert(t.drop_last() =~= s.take(i_0 - 1)); assert(t.last() == s[i_0 - 1]); lemma_peak(q, t); lemma_held(s, i_0 as int); lemma_counts(t); lemma_counts(s.take(i_0 - 1)); }
tail:
    proof { assert(s.take(s.len() as int) =~= s); }
@*/
}
/*@fn juno/src/statistics/core.rs get_profit
ret: r
spec:
    ensures r.v() == booked(summary.positions@),
head:
    broadcast use lemma_total;
closure 0:
    |$P0: Position| -> (o: Fl)
        ensures o.v() == p_profit($P0),
@*/
/*@fn juno/src/statistics/core.rs get_return_over_max_drawdown
ret: r
spec:
    requires summary.quote.v() > 0real,
    ensures r.v() == rmd(summary.quote.v(), summary.positions@),
head:
    let ghost q = summary.quote.v();
    let ghost s = summary.positions@;
    proof { assert(s.take(0) =~= Seq::empty()); lemma_drawdowns(q, s); }
loop 0 inv:
    invariant
    i_0 <= s_0@.len(), s_0@ == s,
    quote.v() == q + booked(s.take(i_0 as int)), max_quote.v() == peak(q, s.take(i_0 as int)), profit.v() == booked(s.take(i_0 as int)),
    max_drawdown.v() == max_dd(q, s.take(i_0 as int)),
    s == summary.positions@, q > 0real, q == summary.quote.v(),
    decreases s_0@.len() - i_0
loop 0 head:
    let ghost t = s.take(i_0 as int);
    proof { assert(t.drop_last() =~= s.take(i_0 - 1)); assert(t.last() == s[i_0 - 1]); lemma_peak(q, t); }
tail:
    proof { assert(s.take(s.len() as int) =~= s); }
@*/
// ==== juno/src/statistics/mod.rs ====
/*@enum juno/src/statistics/mod.rs PositionType
@*/
/*@struct juno/src/statistics/mod.rs PositionStatistics
@*/
impl PositionStatistics {
/*@fn juno/src/statistics/mod.rs PositionStatistics::compose
ret: r
spec:
    requires p_open_time(*pos) <= p_close_time(*pos), p_cost(*pos) != 0real,
    ensures (r.type_ is Long) == (*pos is Long), r.open_time.0 == p_open_time(*pos), r.close_time.0 == p_close_time(*pos), r.close_reason == p_reason(*pos),
        r.duration.0 == p_close_time(*pos) - p_open_time(*pos), r.cost.v() == p_cost(*pos), r.gain.v() == p_gain(*pos), r.profit.v() == p_profit(*pos),
        r.roi.v() == r.profit.v() / r.cost.v(), r.annualized_roi.v() == the_annual(r.duration.0 as int, r.roi.v()),
@*/
}
}
fn main(){}

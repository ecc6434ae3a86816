//@include hdr.rs
verus! {
//@subst_type Box<dyn Signal> => DynSignal
//@subst_type Box<dyn StopLoss> => DynSl
//@subst_type Box<dyn TakeProfit> => DynTp
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include rseq.rs
//@include candle.rs
//@include advice.rs
//@include prim_ops.rs
//@contracts rnd.rs
//@broadcast lemma_the_size, lemma_the_rd, lemma_the_rhu
//@contracts imath.rs
//@contracts advf.rs
//@include trdf.rs
//@include trd.rs
//@include trt.rs
//@include trfrom.rs
//@include pos.rs

// ---- the exchange's rules ----
pub struct Env { pub f: Filters, pub e: Fees, pub b: BorrowInfo, pub mm: u32 }
pub open spec fn env(f: Filters, e: Fees, b: BorrowInfo, mm: u32) -> Env { Env { f, e, b, mm } }
// x rounded down to a tradable size: the number filter_ok (C03) allows
pub open spec fn tradable(f: Filters, x: real) -> real { the_size(f.size.min.v(), f.size.max.v(), f.size.step.v(), x) }
// the whole capital q, rounded down to a tradable size
pub open spec fn long_open_ok(f: Filters, e: Fees, q: real, o: Fill) -> bool {
    let price = o.price.v();
    o.size.v() == tradable(f, q / price) && o.size.v() != 0real
    && o.quote.v() == the_rd(price * o.size.v(), f.quote_precision)
    && o.fee.v() == the_rhu(o.size.v() * e.taker.v(), f.base_precision) }
// ... of some capital
pub open spec fn long_open_some(f: Filters, e: Fees, o: Fill) -> bool { exists|q: real| #[trigger] long_open_ok(f, e, q, o) }
pub open spec fn long_close_ok(f: Filters, e: Fees, o: Fill, c: Fill) -> bool {
    let price = c.price.v();
    c.size.v() == tradable(f, o.size.v() - o.fee.v())
    && c.quote.v() == the_rd(price * c.size.v(), f.quote_precision)
    && c.fee.v() == the_rhu(c.quote.v() * e.taker.v(), f.quote_precision) }
pub open spec fn short_open_ok(g: Env, q: real, borrowed: real, o: Fill) -> bool {
    let price = o.price.v();
    let cs = tradable(g.f, q / price);
    cs != 0real
    && borrowed == rmin(cs * (g.mm - 1) as real, g.b.limit.v()) && o.size.v() == borrowed
    && o.quote.v() == the_rd(price * borrowed, g.f.quote_precision)
    && o.fee.v() == the_rhu(o.quote.v() * g.e.taker.v(), g.f.quote_precision) }
// interest intervals started in a duration
pub open spec fn started(d: int, interval: int) -> int { spec_ceil(d, interval) / interval }
pub open spec fn short_close_ok(f: Filters, e: Fees, b: BorrowInfo, borrowed: real, d: int, c: Fill) -> bool {
    let interest = the_rhu(borrowed * started(d, b.interest_interval as int) as real * b.interest_rate.v(), f.base_precision);
    let price = c.price.v();
    c.fee.v() == the_rhu((borrowed + interest) * e.taker.v(), f.base_precision)
    && c.size.v() == borrowed + interest + c.fee.v()
    && c.quote.v() == the_rd(price * c.size.v(), f.quote_precision) }
pub proof fn lemma_started(d: int, m: int)
    requires d >= 0, m > 0
    ensures (started(d, m) - 1) * m < d <= started(d, m) * m, started(d, m) >= 0, d == 0 ==> started(d, m) == 0
{
    lemma_fundamental_div_mod(d, m);
    if d % m == 0 { assert((d / m - 1) * m == m * (d / m) - m) by (nonlinear_arith) {} assert((d / m) * m == m * (d / m)) by (nonlinear_arith) {} lemma_div_pos_is_pos(d, m); }
    else {
        assert(spec_ceil(d, m) == m * (d / m + 1)) by (nonlinear_arith) requires d == m * (d / m) + d % m, spec_ceil(d, m) == d - d % m + m {}
        lemma_div_multiples_vanish(d / m + 1, m);
        lemma_mod_bound(d, m);
        lemma_div_pos_is_pos(d, m);
        assert((d / m + 1) * m == m * (d / m) + m) by (nonlinear_arith) {}
        assert((d / m) * m == m * (d / m)) by (nonlinear_arith) {}
    }
}
pub open spec fn open_ok(g: Env, o: OpenPosition) -> bool {
    match o {
        OpenPosition::Long(p) => long_open_some(g.f, g.e, one(p.fills)),
        OpenPosition::Short(p) => short_open_ok(g, p.collateral.v(), p.borrowed.v(), one(p.fills)) } }
pub open spec fn pos_ok(g: Env, p: Position) -> bool {
    match p {
        Position::Long(p) => long_open_some(g.f, g.e, one(p.open_fills))
            && long_close_ok(g.f, g.e, one(p.open_fills), one(p.close_fills)),
        Position::Short(p) => short_open_ok(g, p.collateral.v(), p.borrowed.v(), one(p.open_fills))
            && p.open_time.0 <= p.close_time.0
            && short_close_ok(g.f, g.e, g.b, p.borrowed.v(), p.close_time.0 - p.open_time.0, one(p.close_fills)) } }
pub open spec fn all_ok(g: Env, s: Seq<Position>) -> bool { forall|i: int| 0 <= i < s.len() ==> pos_ok(g, #[trigger] s[i]) }
pub open spec fn same_rest(a: State, b: State) -> bool { a.strategy == b.strategy && a.stop_loss == b.stop_loss && a.take_profit == b.take_profit && a.changed == b.changed && a.last_candle == b.last_candle }
pub open spec fn opened_at(o: Option<OpenPosition>, t: Timestamp) -> bool { match o { None => true, Some(OpenPosition::Long(p)) => p.time.0 <= t.0, Some(OpenPosition::Short(p)) => p.time.0 <= t.0 } }
pub open spec fn inv8(g: Env, s: State, y: TradingSummary) -> bool { all_ok(g, y.positions@) && (s.open_position is Some ==> open_ok(g, s.open_position->0)) }
impl State {
/*@fn juno/src/trading/traders.rs State::new
ret: r
spec:
    ensures r.changed.enabled, r.changed.inv(Seq::empty()), r.open_position is None, r.last_candle is None, r.quote == quote,
@*/
}
/*@fn juno/src/trading/traders.rs try_open_long_position
ret: r
spec:
    requires filters_ok(*filters), price.v() > 0real, old(state).open_position is None,
    ensures same_rest(*final(state), *old(state)), opened_at(final(state).open_position, time),
        // opened exactly when the capital pays for a tradable size
        r is Err ==> tradable(*filters, old(state).quote.v() / price.v()) == 0real && final(state).open_position is None && final(state).quote == old(state).quote,
        r is Ok ==> (final(state).open_position matches Some(OpenPosition::Long(p)) && p.time == time && one(p.fills).price == price
            && long_open_ok(*filters, *fees, old(state).quote.v(), one(p.fills)) && long_open_some(*filters, *fees, one(p.fills))),
tail:
    proof { if state.open_position is Some && state.open_position->0 is Long { let p = state.open_position->0->Long_0; assert(long_open_ok(*filters, *fees, old(state).quote.v(), one(p.fills))); } }
@*/
/*@fn juno/src/trading/traders.rs close_long_position
spec:
    requires filters_ok(*filters), old(state).open_position matches Some(OpenPosition::Long(_)),
    ensures same_rest(*final(state), *old(state)), final(state).open_position is None,
        old(state).open_position matches Some(OpenPosition::Long(o)) && final(summary).positions@.len() == old(summary).positions@.len() + 1
        && final(summary).positions@.drop_last() == old(summary).positions@
        && (final(summary).positions@.last() matches Position::Long(p) && p.open_fills == o.fills && p.open_time == o.time && p.close_time == time && one(p.close_fills).price == price
            && long_close_ok(*filters, *fees, one(o.fills), one(p.close_fills))),
@*/
/*@fn juno/src/trading/traders.rs try_open_short_position
ret: r
spec:
    requires filters_ok(*filters), price.v() > 0real, margin_multiplier >= 1, old(state).open_position is None,
    ensures same_rest(*final(state), *old(state)), opened_at(final(state).open_position, time),
        r is Err ==> tradable(*filters, old(state).quote.v() / price.v()) == 0real && final(state).open_position is None && final(state).quote == old(state).quote,
        r is Ok ==> (final(state).open_position matches Some(OpenPosition::Short(p)) && p.time == time && one(p.fills).price == price && p.collateral == old(state).quote
            && short_open_ok(env(*filters, *fees, *borrow_info, margin_multiplier), old(state).quote.v(), p.borrowed.v(), one(p.fills))),
@*/
/*@fn juno/src/trading/traders.rs close_short_position
spec:
    requires filters_ok(*filters), old(state).open_position matches Some(OpenPosition::Short(_)), borrow_info.interest_interval > 0,
        opened_at(old(state).open_position, time), time.0 + borrow_info.interest_interval <= u64::MAX,
    ensures same_rest(*final(state), *old(state)), final(state).open_position is None,
        old(state).open_position matches Some(OpenPosition::Short(o)) && final(summary).positions@.len() == old(summary).positions@.len() + 1
        && final(summary).positions@.drop_last() == old(summary).positions@
        && (final(summary).positions@.last() matches Position::Short(p) && p.open_fills == o.fills && p.open_time == o.time && p.close_time == time && one(p.close_fills).price == price
            && p.collateral == o.collateral && p.borrowed == o.borrowed
            && short_close_ok(*filters, *fees, *borrow_info, p.borrowed.v(), p.close_time.0 - p.open_time.0, one(p.close_fills))),
@*/
pub proof fn lemma_push_ok(g: Env, s: Seq<Position>, t: Seq<Position>)
    requires all_ok(g, s), t.len() == s.len() + 1, t.drop_last() == s, pos_ok(g, t.last())
    ensures all_ok(g, t)
{ assert forall|i: int| 0 <= i < t.len() implies pos_ok(g, #[trigger] t[i]) by { if i < s.len() { assert(t[i] == s[i]); } } }
pub proof fn lemma_grow(g: Env)
    ensures forall|s: Seq<Position>, t: Seq<Position>| #![trigger all_ok(g, s), all_ok(g, t)] all_ok(g, s) && t.len() == s.len() + 1 && t.drop_last() == s && pos_ok(g, t.last()) ==> all_ok(g, t)
{ assert forall|s: Seq<Position>, t: Seq<Position>| #![trigger all_ok(g, s), all_ok(g, t)] all_ok(g, s) && t.len() == s.len() + 1 && t.drop_last() == s && pos_ok(g, t.last()) implies all_ok(g, t) by { lemma_push_ok(g, s, t); } }
/*@fn juno/src/trading/traders.rs tick
ret: r
spec:
    requires filters_ok(*filters), candle_ok(*candle, interval, *borrow_info), borrow_info.interest_interval > 0, margin_multiplier >= 1,
        old(state).changed.age < u32::MAX, opened_at(old(state).open_position, Timestamp((candle.time.0 + interval.0) as u64)),
        inv8(env(*filters, *fees, *borrow_info, margin_multiplier), *old(state), *old(summary)), old(state).changed.enabled,
    ensures
        inv8(env(*filters, *fees, *borrow_info, margin_multiplier), *final(state), *final(summary)),
        // the run stops only for want of a tradable size
        r is Err ==> final(state).open_position is None && tradable(*filters, final(state).quote.v() / candle.close.v()) == 0real,
        r is Ok ==> final(state).last_candle == Some(*candle),
        final(state).changed.enabled, forall|h: AH| #[trigger] old(state).changed.inv(h) ==> exists|a: Advice| #[trigger] final(state).changed.inv(a_upd(h, a)),
        opened_at(final(state).open_position, Timestamp((candle.time.0 + interval.0) as u64)),
head:
    proof { lemma_grow(env(*filters, *fees, *borrow_info, margin_multiplier)); }
@*/
/*@fn juno/src/trading/traders.rs trade
ret: r
spec:
    requires input_ok(*input, params.trader.interval),
    ensures all_ok(env(*input.filters, *input.fees, *input.borrow_info, input.margin_multiplier), r.positions@),
loop 0 pre:
    let ghost g = env(*input.filters, *input.fees, *input.borrow_info, input.margin_multiplier);
    proof { lemma_grow(g); }
loop 0 inv:
    invariant_except_break
        i_0 <= s_0@.len(),
        exists|h: AH| h.len() == i_0 && #[trigger] state.changed.inv(h),
        i_0 == 0 ==> state.last_candle is None && state.open_position is None,
        i_0 > 0 ==> state.last_candle == Some(input.candles@[i_0 - 1]) && opened_at(state.open_position, Timestamp((input.candles@[i_0 - 1].time.0 + interval.0) as u64)),
    invariant
        s_0@ == input.candles@, input_ok(*input, params.trader.interval), interval == params.trader.interval, state.changed.enabled,
        g == env(*input.filters, *input.fees, *input.borrow_info, input.margin_multiplier), inv8(g, state, summary),
        forall|s: Seq<Position>, t: Seq<Position>| #![trigger all_ok(g, s), all_ok(g, t)] all_ok(g, s) && t.len() == s.len() + 1 && t.drop_last() == s && pos_ok(g, t.last()) ==> all_ok(g, t),
    ensures
        state.open_position is Some ==> (match state.last_candle { None => false, Some(l) => candle_ok(l, interval, *input.borrow_info) && opened_at(state.open_position, Timestamp((l.time.0 + interval.0) as u64)) }),
    decreases s_0@.len() - i_0,
loop 0 head:
    proof {
        let h = choose|h: AH| h.len() == i_0 - 1 && #[trigger] state.changed.inv(h);
        assert(candle_ok(input.candles@[i_0 - 1], interval, *input.borrow_info));
        lemma_age(h);
        if i_0 > 1 { assert(input.candles@[i_0 - 2].time.0 <= input.candles@[i_0 - 1].time.0); }
        assert(forall|a: Advice| (#[trigger] a_upd(h, a)).len() == i_0);
    }
@*/
pub proof fn lemma_age(h: AH) ensures age(h) <= h.len() decreases h.len() { if h.len() > 0 { lemma_age(h.drop_last()); } }
}
fn main(){}

//@include hdr.rs
verus! {
//@subst_type Box<dyn Signal> => DynSignal
//@subst_type Box<dyn StopLoss> => DynSl
//@subst_type Box<dyn TakeProfit> => DynTp
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include rseq.rs
//@include candle.rs
//@include advice.rs
//@include prim_ops.rs
//@contracts rnd.rs
//@broadcast lemma_the_size, lemma_the_rd, lemma_the_rhu
//@contracts imath.rs
//@contracts advf.rs
//@include trdf.rs
//@include trd.rs
//@include trt.rs
//@include trfrom.rs
//@contracts pos.rs
//@include pos6.rs
//@include poscost.rs


// ---- the books ----
// what the open position took out of (long) or brought into (short) the free capital
pub open spec fn tied(o: Option<OpenPosition>) -> real {
    match o {
        None => 0real,
        Some(OpenPosition::Long(p)) => one(p.fills).quote.v(),
        Some(OpenPosition::Short(p)) => -(one(p.fills).quote.v() - one(p.fills).fee.v()) } }
pub open spec fn tradable(f: Filters, x: real) -> real { the_size(f.size.min.v(), f.size.max.v(), f.size.step.v(), x) }
// the position is sized from capital q and pays for itself out of q
pub open spec fn sized(f: Filters, q: real, long: Option<Fill>, collateral: real) -> bool {
    match long { Some(o) => o.size.v() == tradable(f, q / o.price.v()) && o.price.v() > 0real, None => collateral == q } }
pub open spec fn o_sized(f: Filters, q: real, o: OpenPosition) -> bool {
    match o { OpenPosition::Long(p) => sized(f, q, Some(one(p.fills)), 0real), OpenPosition::Short(p) => sized(f, q, None, p.collateral.v()) } }
pub open spec fn p_sized(f: Filters, q: real, p: Position) -> bool {
    match p { Position::Long(p) => sized(f, q, Some(one(p.open_fills)), 0real), Position::Short(p) => sized(f, q, None, p.collateral.v()) } }
// position i is sized from the initial capital and the profits booked before it
pub open spec fn all_sized(f: Filters, q0: real, s: Seq<Position>) -> bool { forall|i: int| 0 <= i < s.len() ==> p_sized(f, q0 + booked(s.take(i)), #[trigger] s[i]) }
pub open spec fn books(f: Filters, q0: real, s: State, y: TradingSummary) -> bool {
    s.quote.v() == q0 + booked(y.positions@) - tied(s.open_position) && y.quote.v() == q0
    && all_sized(f, q0, y.positions@) && (s.open_position is Some ==> o_sized(f, q0 + booked(y.positions@), s.open_position->0)) }
pub proof fn lemma_push_sized(f: Filters, q0: real, s: Seq<Position>, t: Seq<Position>)
    requires t.len() == s.len() + 1, t.drop_last() == s
    ensures booked(t) == booked(s) + p_profit(t.last()), all_sized(f, q0, s) && p_sized(f, q0 + booked(s), t.last()) ==> all_sized(f, q0, t)
{
    if all_sized(f, q0, s) && p_sized(f, q0 + booked(s), t.last()) {
        assert forall|i: int| 0 <= i < t.len() implies p_sized(f, q0 + booked(t.take(i)), #[trigger] t[i]) by {
            assert(t.take(i) =~= s.take(i)); if i < s.len() { assert(t[i] == s[i]); } else { assert(t.take(i) =~= s); } }
    }
}
// a long opening never spends more than there is
pub proof fn lemma_affordable(f: Filters, q: real, price: real, p: u32)
    requires q >= 0real, price > 0real, filters_ok(f)
    ensures the_rd(price * tradable(f, q / price), p) <= q
{
    let x = q / price;
    assert(x >= 0real) by (nonlinear_arith) requires x == q / price, q >= 0real, price > 0real {}
    if f.size.step.v() > 0real { lemma_step(cap(x, f.size.max.v()), f.size.step.v()); }
    let z = tradable(f, x);
    assert(z <= x);
    assert(price * z <= q) by (nonlinear_arith) requires z <= x, x == q / price, price > 0real {}
    let g = rpow(10real, p as nat);
    lemma_pow_pos(p as nat); ax_floor((price * z) * g); lemma_dec(price * z, g, rfloor((price * z) * g));
}
pub open spec fn same_rest(a: State, b: State) -> bool { a.strategy == b.strategy && a.stop_loss == b.stop_loss && a.take_profit == b.take_profit && a.changed == b.changed && a.last_candle == b.last_candle }
pub open spec fn opened_at(o: Option<OpenPosition>, t: Timestamp) -> bool { match o { None => true, Some(OpenPosition::Long(p)) => p.time.0 <= t.0, Some(OpenPosition::Short(p)) => p.time.0 <= t.0 } }
impl State {
/*@fn juno/src/trading/traders.rs State::new
ret: r
spec:
    ensures r.changed.enabled, r.changed.inv(Seq::empty()), r.open_position is None, r.last_candle is None, r.quote == quote,
@*/
}
/*@fn juno/src/trading/traders.rs try_open_long_position
ret: r
spec:
    requires filters_ok(*filters), price.v() > 0real, old(state).open_position is None,
    ensures same_rest(*final(state), *old(state)), opened_at(final(state).open_position, time),
        final(state).quote.v() + tied(final(state).open_position) == old(state).quote.v(),
        final(state).open_position matches Some(o) ==> o_sized(*filters, old(state).quote.v(), o), r is Err ==> final(state).open_position is None,
        // never more than there is
        old(state).quote.v() >= 0real ==> final(state).quote.v() >= 0real,
head:
    proof { if state.quote.v() >= 0real { lemma_affordable(*filters, state.quote.v(), price.v(), filters.quote_precision); } }
@*/
/*@fn juno/src/trading/traders.rs close_long_position
spec:
    requires filters_ok(*filters), old(state).open_position matches Some(OpenPosition::Long(_)),
    ensures same_rest(*final(state), *old(state)), final(state).open_position is None, final(summary).quote == old(summary).quote,
        final(summary).positions@.len() == old(summary).positions@.len() + 1, final(summary).positions@.drop_last() == old(summary).positions@,
        final(state).quote.v() == old(state).quote.v() + tied(old(state).open_position) + p_profit(final(summary).positions@.last()),
        forall|q: real| #[trigger] o_sized(*filters, q, old(state).open_position->0) ==> p_sized(*filters, q, final(summary).positions@.last()),
@*/
/*@fn juno/src/trading/traders.rs try_open_short_position
ret: r
spec:
    requires filters_ok(*filters), price.v() > 0real, margin_multiplier >= 1, old(state).open_position is None,
    ensures same_rest(*final(state), *old(state)), opened_at(final(state).open_position, time),
        final(state).quote.v() + tied(final(state).open_position) == old(state).quote.v(),
        final(state).open_position matches Some(o) ==> o_sized(*filters, old(state).quote.v(), o), r is Err ==> final(state).open_position is None,
@*/
/*@fn juno/src/trading/traders.rs close_short_position
spec:
    requires filters_ok(*filters), old(state).open_position matches Some(OpenPosition::Short(_)), borrow_info.interest_interval > 0,
        opened_at(old(state).open_position, time), time.0 + borrow_info.interest_interval <= u64::MAX,
    ensures same_rest(*final(state), *old(state)), final(state).open_position is None, final(summary).quote == old(summary).quote,
        final(summary).positions@.len() == old(summary).positions@.len() + 1, final(summary).positions@.drop_last() == old(summary).positions@,
        final(state).quote.v() == old(state).quote.v() + tied(old(state).open_position) + p_profit(final(summary).positions@.last()),
        forall|q: real| #[trigger] o_sized(*filters, q, old(state).open_position->0) ==> p_sized(*filters, q, final(summary).positions@.last()),
@*/
/*@fn juno/src/trading/traders.rs tick
ret: r
spec:
    requires filters_ok(*filters), candle_ok(*candle, interval, *borrow_info), borrow_info.interest_interval > 0, margin_multiplier >= 1,
        old(state).changed.age < u32::MAX, opened_at(old(state).open_position, Timestamp((candle.time.0 + interval.0) as u64)), old(state).changed.enabled,
    ensures
        forall|q0: real| #[trigger] books(*filters, q0, *old(state), *old(summary)) ==> books(*filters, q0, *final(state), *final(summary)),
        r is Err ==> final(state).open_position is None,
        r is Ok ==> final(state).last_candle == Some(*candle),
        final(state).changed.enabled, forall|h: AH| #[trigger] old(state).changed.inv(h) ==> exists|a: Advice| #[trigger] final(state).changed.inv(a_upd(h, a)),
        opened_at(final(state).open_position, Timestamp((candle.time.0 + interval.0) as u64)),
head:
    proof { lemma_grow(*filters); }
@*/
pub proof fn lemma_grow(f: Filters)
    ensures forall|q0: real, s: Seq<Position>, t: Seq<Position>| #![trigger all_sized(f, q0, s), all_sized(f, q0, t)] t.len() == s.len() + 1 && t.drop_last() == s
        ==> booked(t) == booked(s) + p_profit(t.last()) && (all_sized(f, q0, s) && p_sized(f, q0 + booked(s), t.last()) ==> all_sized(f, q0, t))
{
    assert forall|q0: real, s: Seq<Position>, t: Seq<Position>| #![trigger all_sized(f, q0, s), all_sized(f, q0, t)] t.len() == s.len() + 1 && t.drop_last() == s
        implies booked(t) == booked(s) + p_profit(t.last()) && (all_sized(f, q0, s) && p_sized(f, q0 + booked(s), t.last()) ==> all_sized(f, q0, t)) by { lemma_push_sized(f, q0, s, t); }
}
/*@fn juno/src/trading/traders.rs trade
ret: r
spec:
    requires input_ok(*input, params.trader.interval),
    ensures r.quote == input.quote, all_sized(*input.filters, input.quote.v(), r.positions@),
loop 0 pre:
    let ghost f = *input.filters;
    proof { lemma_grow(f); }
loop 0 inv:
    invariant_except_break
        i_0 <= s_0@.len(),
        exists|h: AH| h.len() == i_0 && #[trigger] state.changed.inv(h),
        i_0 == 0 ==> state.last_candle is None && state.open_position is None,
        i_0 > 0 ==> state.last_candle == Some(input.candles@[i_0 - 1]) && opened_at(state.open_position, Timestamp((input.candles@[i_0 - 1].time.0 + interval.0) as u64)),
    invariant
        s_0@ == input.candles@, input_ok(*input, params.trader.interval), interval == params.trader.interval, state.changed.enabled, summary.quote == input.quote,
        f == *input.filters, books(f, input.quote.v(), state, summary),
        forall|q0: real, s: Seq<Position>, t: Seq<Position>| #![trigger all_sized(f, q0, s), all_sized(f, q0, t)] t.len() == s.len() + 1 && t.drop_last() == s
            ==> booked(t) == booked(s) + p_profit(t.last()) && (all_sized(f, q0, s) && p_sized(f, q0 + booked(s), t.last()) ==> all_sized(f, q0, t)),
    ensures
        state.open_position is Some ==> (match state.last_candle { None => false, Some(l) => candle_ok(l, interval, *input.borrow_info) && opened_at(state.open_position, Timestamp((l.time.0 + interval.0) as u64)) }),
    decreases s_0@.len() - i_0,
loop 0 head:
    proof {
        let h = choose|h: AH| h.len() == i_0 - 1 && #[trigger] state.changed.inv(h);
        assert(candle_ok(input.candles@[i_0 - 1], interval, *input.borrow_info));
        lemma_age(h);
        if i_0 > 1 { assert(input.candles@[i_0 - 2].time.0 <= input.candles@[i_0 - 1].time.0); }
        assert(forall|a: Advice| (#[trigger] a_upd(h, a)).len() == i_0);
    }
@*/
pub proof fn lemma_age(h: AH) ensures age(h) <= h.len() decreases h.len() { if h.len() > 0 { lemma_age(h.drop_last()); } }
}
fn main(){}

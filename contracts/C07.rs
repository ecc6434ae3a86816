//@include hdr.rs
verus! {
//@subst_type Box<dyn Signal> => DynSignal
//@subst_type Box<dyn StopLoss> => DynSl
//@subst_type Box<dyn TakeProfit> => DynTp
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include rseq.rs
//@include candle.rs
//@include advice.rs
//@include prim_ops.rs
//@contracts rnd.rs
//@contracts imath.rs
//@contracts advf.rs
//@include trdf.rs
//@include trd.rs
//@include trt.rs

//@include trfrom.rs

// ---- what a backtest does, one candle at a time ----
pub enum Side { Long, Short }
pub struct Opened { pub side: Side, pub time: int, pub price: real }
pub struct Closed { pub open: Opened, pub time: int, pub price: real, pub reason: CloseReason }
pub struct M { pub st: DynSignal, pub sl: DynSl, pub tp: DynTp, pub advs: AH, pub open: Option<Opened>, pub closed: Seq<Closed>, pub last: Option<Candle>, pub stopped: bool }
pub struct Cfg { pub interval: Interval, pub long: bool, pub short: bool }
pub open spec fn t_end(c: Candle, g: Cfg) -> int { c.time.0 + g.interval.0 }
// precedence: advice against the position, stop loss, take profit
pub open spec fn close_reason(o: Opened, a: Advice, sl: DynSl, tp: DynTp) -> Option<CloseReason> {
    let against = a is Liquidate || (o.side is Long && a is Short) || (o.side is Short && a is Long);
    if against { Some(CloseReason::Strategy) }
    else if (o.side is Long && sl_up(sl)) || (o.side is Short && sl_dn(sl)) { Some(CloseReason::StopLoss) }
    else if (o.side is Long && tp_up(tp)) || (o.side is Short && tp_dn(tp)) { Some(CloseReason::TakeProfit) }
    else { None } }
pub open spec fn wanted(a: Advice, g: Cfg) -> Option<Side> {
    if g.long && a is Long { Some(Side::Long) } else if g.short && a is Short { Some(Side::Short) } else { None } }
// after the indicators have seen the candle: the advice (changes only) and the position before
pub open spec fn settle(m: M, a: Advice, c: Candle, g: Cfg) -> M {
    match m.open {
        None => m,
        Some(o) => match close_reason(o, a, m.sl, m.tp) {
            None => m,
            Some(r) => M { open: None, closed: m.closed.push(Closed { open: o, time: t_end(c, g), price: c.close.v(), reason: r }), ..m } } } }
pub open spec fn enter(m: M, a: Advice, c: Candle, g: Cfg, fits: bool) -> M {
    if m.open is Some { M { last: Some(c), ..m } }
    else if wanted(a, g) is Some && !fits { M { stopped: true, ..m } }
    else {
        let open = match wanted(a, g) { None => None, Some(side) => Some(Opened { side, time: t_end(c, g), price: c.close.v() }) };
        M { open, sl: sl_clr(m.sl, c), tp: tp_clr(m.tp, c), last: Some(c), ..m } } }
pub open spec fn step(m: M, c: Candle, g: Cfg, fits: bool) -> M {
    let st = st_upd(m.st, c);
    let a = changed_out(m.advs, st_adv(st));
    let m1 = M { st, sl: sl_upd(m.sl, c), tp: tp_upd(m.tp, c), advs: a_upd(m.advs, st_adv(st)), ..m };
    enter(settle(m1, a, c, g), a, c, g, fits) }
pub open spec fn m0(p: TradingParams) -> M {
    M { st: st_new(p.strategy, p.trader.interval), sl: sl_new(p.stop_loss), tp: tp_new(p.take_profit), advs: Seq::empty(), open: None, closed: Seq::empty(), last: None, stopped: false } }
// fits[k]: whether an opening wanted at candle k was affordable (C08); a stopped run reads no further candle
pub open spec fn run(p: TradingParams, g: Cfg, cs: Seq<Candle>, fits: Seq<bool>) -> M decreases fits.len() {
    if fits.len() == 0 || fits.len() > cs.len() { m0(p) }
    else { let m = run(p, g, cs, fits.drop_last()); if m.stopped { m } else { step(m, cs[fits.len() - 1], g, fits.last()) } } }
pub open spec fn finish(m: M, g: Cfg) -> Seq<Closed> {
    match (m.last, m.open) {
        (Some(c), Some(o)) => m.closed.push(Closed { open: o, time: t_end(c, g), price: c.close.v(), reason: CloseReason::Cancelled }),
        _ => m.closed } }

// ---- the real data, read as the above ----
pub open spec fn p_view(p: Position) -> Closed {
    match p {
        Position::Long(p) => Closed { open: Opened { side: Side::Long, time: p.open_time.0 as int, price: p.open_fills@[0].price.v() }, time: p.close_time.0 as int, price: p.close_fills@[0].price.v(), reason: p.close_reason },
        Position::Short(p) => Closed { open: Opened { side: Side::Short, time: p.open_time.0 as int, price: p.open_fills@[0].price.v() }, time: p.close_time.0 as int, price: p.close_fills@[0].price.v(), reason: p.close_reason } } }
pub open spec fn o_view(o: Option<OpenPosition>) -> Option<Opened> {
    match o {
        None => None,
        Some(OpenPosition::Long(p)) => Some(Opened { side: Side::Long, time: p.time.0 as int, price: p.fills@[0].price.v() }),
        Some(OpenPosition::Short(p)) => Some(Opened { side: Side::Short, time: p.time.0 as int, price: p.fills@[0].price.v() }) } }
pub open spec fn ps_view(s: Seq<Position>) -> Seq<Closed> { s.map_values(|p: Position| p_view(p)) }
pub open spec fn rel(s: State, y: TradingSummary, m: M) -> bool {
    s.strategy == m.st && s.stop_loss == m.sl && s.take_profit == m.tp && s.changed.enabled && s.changed.inv(m.advs)
    && o_view(s.open_position) == m.open && ps_view(y.positions@) == m.closed }
pub broadcast proof fn lemma_ps_push(s: Seq<Position>, p: Position)
    ensures #[trigger] ps_view(s.push(p)) == ps_view(s).push(p_view(p))
{ assert(ps_view(s.push(p)) =~= ps_view(s).push(p_view(p))); }
// nothing but capital and position changes
pub open spec fn same_rest(a: State, b: State) -> bool { a.strategy == b.strategy && a.stop_loss == b.stop_loss && a.take_profit == b.take_profit && a.changed == b.changed && a.last_candle == b.last_candle }
pub open spec fn opened_at(o: Option<OpenPosition>, t: Timestamp) -> bool { match o { None => true, Some(OpenPosition::Long(p)) => p.time.0 <= t.0, Some(OpenPosition::Short(p)) => p.time.0 <= t.0 } }

impl Fill {
/*@fn juno/src/lib.rs Fill::total_size
@*/
/*@fn juno/src/lib.rs Fill::total_fee
@*/
}
impl OpenLongPosition {
/*@fn juno/src/trading/mod.rs OpenLongPosition::close
ret: r
spec:
    ensures r.open_time == self.time, r.open_fills == self.fills, r.close_time == time, r.close_fills == fills, r.close_reason == reason,
@*/
/*@fn juno/src/trading/mod.rs OpenLongPosition::base_gain
@*/
}
impl OpenShortPosition {
/*@fn juno/src/trading/mod.rs OpenShortPosition::close
ret: r
spec:
    ensures r.open_time == self.time, r.open_fills == self.fills, r.close_time == time, r.close_fills == fills, r.close_reason == reason,
@*/
}
impl TradingSummary {
/*@fn juno/src/trading/mod.rs TradingSummary::new
ret: r
spec:
    ensures r.positions@.len() == 0, r.start == start, r.end == end, r.quote == quote,
@*/
}
impl State {
/*@fn juno/src/trading/traders.rs State::new
ret: r
spec:
    ensures r.strategy == strategy, r.stop_loss == stop_loss, r.take_profit == take_profit, r.changed.enabled, r.changed.inv(Seq::empty()),
        r.open_position is None, r.last_candle is None,
@*/
}
/*@fn juno/src/trading/traders.rs try_open_long_position
ret: r
spec:
    requires filters_ok(*filters), price.v() > 0real, old(state).open_position is None,
    ensures same_rest(*final(state), *old(state)),
        o_view(final(state).open_position) == (if r is Ok { Some(Opened { side: Side::Long, time: time.0 as int, price: price.v() }) } else { None::<Opened> }),
@*/
/*@fn juno/src/trading/traders.rs close_long_position
spec:
    requires filters_ok(*filters), old(state).open_position matches Some(OpenPosition::Long(_)),
    ensures same_rest(*final(state), *old(state)), final(state).open_position is None,
        ps_view(final(summary).positions@) == ps_view(old(summary).positions@).push(Closed { open: o_view(old(state).open_position)->0, time: time.0 as int, price: price.v(), reason }),
        final(summary).start == old(summary).start, final(summary).end == old(summary).end, final(summary).quote == old(summary).quote,
@*/
/*@fn juno/src/trading/traders.rs try_open_short_position
ret: r
spec:
    requires filters_ok(*filters), price.v() > 0real, margin_multiplier >= 1, old(state).open_position is None,
    ensures same_rest(*final(state), *old(state)),
        o_view(final(state).open_position) == (if r is Ok { Some(Opened { side: Side::Short, time: time.0 as int, price: price.v() }) } else { None::<Opened> }),
@*/
/*@fn juno/src/trading/traders.rs close_short_position
spec:
    requires filters_ok(*filters), old(state).open_position matches Some(OpenPosition::Short(_)), borrow_info.interest_interval > 0,
        opened_at(old(state).open_position, time), time.0 + borrow_info.interest_interval <= u64::MAX,
    ensures same_rest(*final(state), *old(state)), final(state).open_position is None,
        ps_view(final(summary).positions@) == ps_view(old(summary).positions@).push(Closed { open: o_view(old(state).open_position)->0, time: time.0 as int, price: price.v(), reason }),
        final(summary).start == old(summary).start, final(summary).end == old(summary).end, final(summary).quote == old(summary).quote,
@*/
/*@fn juno/src/trading/traders.rs tick
ret: r
spec:
    requires filters_ok(*filters), candle_ok(*candle, interval, *borrow_info), borrow_info.interest_interval > 0, margin_multiplier >= 1,
        old(state).changed.age < u32::MAX, opened_at(old(state).open_position, Timestamp((candle.time.0 + interval.0) as u64)),
    ensures
        forall|m: M| #[trigger] rel(*old(state), *old(summary), m) ==> {
            let n = step(m, *candle, Cfg { interval, long, short }, r is Ok);
            rel(*final(state), *final(summary), n) && (r is Err ==> n.stopped) && (r is Ok ==> n.stopped == m.stopped) },
        r is Ok ==> final(state).last_candle == Some(*candle), r is Err ==> final(state).open_position is None,
        final(state).changed.enabled == old(state).changed.enabled,
        opened_at(final(state).open_position, Timestamp((candle.time.0 + interval.0) as u64)),
        final(summary).start == old(summary).start, final(summary).end == old(summary).end, final(summary).quote == old(summary).quote,
@*/
pub open spec fn cfg_of(p: TradingParams, n: TradeInput) -> Cfg { Cfg { interval: p.trader.interval, long: n.long, short: n.short } }
/*@fn juno/src/trading/traders.rs trade
ret: r
spec:
    requires input_ok(*input, params.trader.interval),
    ensures
        // the recorded positions are those of a run; it ends early only where an opening was not affordable
        exists|fits: Seq<bool>| {
            let m = #[trigger] run(*params, cfg_of(*params, *input), input.candles@, fits);
            fits.len() <= input.candles@.len() && (fits.len() < input.candles@.len() ==> m.stopped)
            && ps_view(r.positions@) == finish(m, cfg_of(*params, *input)) },
        r.quote == input.quote,
        input.candles@.len() > 0 ==> r.start == input.candles@[0].time && r.end.0 == input.candles@.last().time.0 + params.trader.interval.0,
        input.candles@.len() == 0 ==> r.start.0 == 0 && r.end.0 == params.trader.interval.0,
loop 0 pre:
    let ghost g = cfg_of(*params, *input);
    proof { assert(run(*params, g, input.candles@, Seq::empty()) == m0(*params)); assert(ps_view(summary.positions@) =~= Seq::empty()); }
loop 0 inv:
    invariant_except_break
        i_0 <= s_0@.len(),
        exists|f: Seq<bool>| f.len() == i_0 && ({ let m = #[trigger] run(*params, g, input.candles@, f); rel(state, summary, m) && !m.stopped && m.last == state.last_candle && m.advs.len() == i_0 }),
        i_0 == 0 ==> state.last_candle is None && state.open_position is None,
        i_0 > 0 ==> state.last_candle == Some(input.candles@[i_0 - 1]) && opened_at(state.open_position, Timestamp((input.candles@[i_0 - 1].time.0 + interval.0) as u64)),
    invariant
        s_0@ == input.candles@, input_ok(*input, params.trader.interval), g == cfg_of(*params, *input), interval == params.trader.interval,
        summary.start == start, summary.end == end, summary.quote == input.quote, state.changed.enabled,
    ensures
        exists|f: Seq<bool>| ({ let m = #[trigger] run(*params, g, input.candles@, f); f.len() <= input.candles@.len() && rel(state, summary, m)
            && (if m.stopped { m.open is None } else { f.len() == input.candles@.len() && m.last == state.last_candle }) }),
        state.open_position is Some ==> (match state.last_candle { None => false, Some(l) => candle_ok(l, interval, *input.borrow_info) && opened_at(state.open_position, Timestamp((l.time.0 + interval.0) as u64)) }),
    decreases s_0@.len() - i_0,
loop 0 head:
    let ghost f0 = choose|f: Seq<bool>| f.len() == i_0 - 1 && ({ let m = #[trigger] run(*params, g, input.candles@, f); rel(state, summary, m) && !m.stopped && m.last == state.last_candle && m.advs.len() == i_0 - 1 });
    proof {
        let m = run(*params, g, input.candles@, f0);
        assert(f0.push(true).drop_last() =~= f0); assert(f0.push(false).drop_last() =~= f0);
        assert(run(*params, g, input.candles@, f0.push(true)) == step(m, input.candles@[i_0 - 1], g, true));
        assert(run(*params, g, input.candles@, f0.push(false)) == step(m, input.candles@[i_0 - 1], g, false));
        assert(candle_ok(input.candles@[i_0 - 1], interval, *input.borrow_info));
        lemma_age(m.advs);
        assert(step(m, input.candles@[i_0 - 1], g, true).advs.len() == i_0);
        if i_0 > 1 { assert(input.candles@[i_0 - 2].time.0 <= input.candles@[i_0 - 1].time.0); }
    }
@*/
pub proof fn lemma_age(h: AH) ensures age(h) <= h.len() decreases h.len() { if h.len() > 0 { lemma_age(h.drop_last()); } }
// ---- what a run guarantees about its positions ----
// one at a time, in order; only enabled directions
pub open spec fn chain(s: Seq<Closed>, g: Cfg) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).open.time <= s[i].time && (if s[i].open.side is Long { g.long } else { g.short }))
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).time <= (#[trigger] s[j]).open.time) }
pub open spec fn up_to(m: M, t: int, g: Cfg) -> bool { chain(m.closed, g)
    && (forall|i: int| 0 <= i < m.closed.len() ==> (#[trigger] m.closed[i]).time <= t)
    && (m.open matches Some(o) ==> o.time <= t && (if o.side is Long { g.long } else { g.short })
        && forall|i: int| 0 <= i < m.closed.len() ==> (#[trigger] m.closed[i]).time <= o.time) }
pub proof fn lemma_run_chain(p: TradingParams, g: Cfg, cs: Seq<Candle>, fits: Seq<bool>)
    requires fits.len() <= cs.len(), forall|k: int, l: int| 0 <= k < l < cs.len() ==> (#[trigger] cs[k]).time.0 < (#[trigger] cs[l]).time.0
    ensures ({ let m = run(p, g, cs, fits); chain(finish(m, g), g)
            && (fits.len() > 0 ==> up_to(m, t_end(cs[fits.len() - 1], g), g)) && (fits.len() == 0 ==> m == m0(p)) }),
        ({ let m = run(p, g, cs, fits); fits.len() > 0 && m.open is Some ==> m.last == Some(cs[fits.len() - 1]) && !m.stopped }),
    decreases fits.len()
{
    if fits.len() > 0 {
        let f = fits.drop_last();
        lemma_run_chain(p, g, cs, f);
        if f.len() > 0 { assert(cs[f.len() - 1].time.0 < cs[fits.len() - 1].time.0); }
        let m = run(p, g, cs, f);
    }
}
}
fn main(){}

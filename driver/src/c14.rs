use crate::ctx::*;
use crate::ensure;
use juno::statistics::*;
use juno::trading::*;
use juno::{Fill, Interval, Timestamp};

pub fn random_summary(c: &mut Ctx, exact: bool, unit: u64) -> TradingSummary {
    let v = |c: &mut Ctx| if exact { c.u(1, 64) as f64 / 16.0 } else { c.f(0.01, 10.0) };
    let start = c.u(0, 50) * unit + c.u(0, unit - 1);
    let n = if c.b(0.15) { 0 } else { c.u(1, 12) as usize };
    let quote = v(c) + if c.b(0.5) { 20.0 } else { 0.0 };
    let mut t = start;
    let mut pos = vec![];
    for _ in 0..n {
        t += c.u(0, 3 * unit);
        let open_time = Timestamp(t);
        t += if c.b(0.1) { 0 } else { c.u(0, 3 * unit) };
        let close_time = Timestamp(t);
        let close_reason = c.pick(&[CloseReason::Strategy, CloseReason::StopLoss, CloseReason::TakeProfit, CloseReason::Cancelled]);
        let mut fill = |c: &mut Ctx, flat: Option<f64>| { let (price, size, fee) = (v(c), v(c), if c.b(0.3) { 0.0 } else { v(c) / 64.0 }); [Fill { price, size, quote: flat.unwrap_or(v(c)), fee }] };
        let open_fills = fill(c, None);
        let flat = if c.b(0.15) { Some(open_fills[0].quote) } else { None };
        let mut close_fills = fill(c, flat);
        if flat.is_some() { close_fills[0].fee = 0.0; }
        pos.push(if c.b(0.5) {
            Position::Long(LongPosition { open_time, open_fills, close_time, close_fills, close_reason })
        } else {
            Position::Short(ShortPosition { open_time, open_fills, close_time, close_fills, close_reason, collateral: v(c), borrowed: v(c) })
        });
    }
    let mut s = TradingSummary::new(Timestamp(start), Timestamp(t + c.u(0, 3 * unit)), quote);
    s.positions = pos;
    s
}
/// (open, close, cost, gain, reason) of a position, from its fills
pub fn facts(p: &Position) -> (u64, u64, f64, f64, CloseReason) {
    match p {
        Position::Long(p) => (p.open_time.0, p.close_time.0, p.open_fills[0].quote, p.close_fills[0].quote - p.close_fills[0].fee, p.close_reason),
        Position::Short(p) => (p.open_time.0, p.close_time.0, p.collateral, p.open_fills[0].quote - p.open_fills[0].fee + p.collateral - p.close_fills[0].quote, p.close_reason),
    }
}
fn annual(ms: u64, r: f64) -> f64 {
    if ms == 0 { return 0.0 }
    let y = ms as f64 / (365.2425 * 86_400_000.0);
    let x = ((1.0 + r).ln() / y).exp() - 1.0;
    if 1.0 + r < 0.0 || x.is_nan() { 0.0 } else { x }
}
fn same(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs())) || !(a.abs() < 1e100) && !(b.abs() < 1e100) }
/// annualised over times so short that the float exponent explodes: only the sign is compared
fn same_annual(ms: u64, a: f64, r: f64) -> bool {
    let e = annual(ms, r);
    if 1.0 + r < 0.0 { true } else if ms == 0 { a == e } else if e.abs() > 1e3 || ms < 1_000_000 { a.is_nan() == e.is_nan() && (a >= 0.0 || a.abs() < 1e-3 || r < 1e-9) } else { same(a, e) }
}
pub fn run(c: &mut Ctx) {
    c.rule = "random summaries (long and short positions, break-even and zero-length ones, any close reason), every core and position statistic recomputed from the fills; tie-sensitive counts only on dyadic money; non-trivial: a profit, a loss and a drawdown".into();
    for i in 0..c.n(20000) {
        if c.done() { return; }
        let exact = i % 2 == 0;
        let unit = c.pick(&[4, 3_600_000, 86_400_000, 2_000_000_000]);
        let s = random_summary(c, exact, unit);
        c.case(|| serde_json::to_string(&s).unwrap(), || {
            let st = CoreStatistics::compose(&s);
            let n = s.positions.len();
            let (mut q, mut peak, mut profit, mut dur, mut dd, mut mdd) = (s.quote, s.quote, 0.0, 0u64, 0.0, 0.0f64);
            let (mut win, mut loss, mut slc, mut tpc, mut near) = (0, 0, 0, 0, 0);
            for p in &s.positions {
                let (o, z, cost, gain, why) = facts(p);
                let r = gain - cost;
                profit += r;
                dur += z - o;
                if r >= 0.0 { win += 1 } else { loss += 1 }
                if r.abs() < 1e-9 { near += 1 }
                match why { CloseReason::StopLoss => slc += 1, CloseReason::TakeProfit => tpc += 1, _ => {} }
                q += r;
                peak = peak.max(q);
                let d = (peak - q) / peak;
                dd += d;
                mdd = mdd.max(d);
                let ps = PositionStatistics::compose(p);
                ensure!(ps.open_time.0 == o && ps.close_time.0 == z && ps.duration.0 == z - o && ps.close_reason == why, "position times or reason");
                ensure!(close(ps.cost, cost) && close(ps.gain, gain) && close(ps.profit, r), "position cost {} gain {} profit {}, expected {cost} {gain} {r}", ps.cost, ps.gain, ps.profit);
                ensure!(same(ps.roi, r / cost), "position roi {} expected {}", ps.roi, r / cost);
                ensure!(same_annual(z - o, ps.annualized_roi, r / cost), "position annualized roi {}, expected {}", ps.annualized_roi, annual(z - o, r / cost));
                ensure!(matches!((&ps.type_, p), (PositionType::Long, Position::Long(_)) | (PositionType::Short, Position::Short(_))), "position type");
            }
            ensure!(st.start == s.start && st.end == s.end && st.duration == Interval(s.end.0 - s.start.0), "window {} {} {}", st.start.0, st.end.0, st.duration.0);
            ensure!(close(st.profit, profit) && close(st.cost, s.quote) && close(st.gain, s.quote + profit), "profit {} cost {} gain {}, expected {profit} {} {}", st.profit, st.cost, st.gain, s.quote, s.quote + profit);
            ensure!(same(st.roi, profit / s.quote), "roi {}, expected {}", st.roi, profit / s.quote);
            ensure!(same_annual(s.end.0 - s.start.0, st.annualized_roi, profit / s.quote), "annualized roi {}, expected {}", st.annualized_roi, annual(s.end.0 - s.start.0, profit / s.quote));
            let m = if n == 0 { 1.0 } else { n as f64 };
            ensure!(same(st.mean_position_profit, profit / m) && same(st.mean_drawdown, dd / m), "mean profit {} mean drawdown {}, expected {} {}", st.mean_position_profit, st.mean_drawdown, profit / m, dd / m);
            ensure!(st.mean_position_duration.0 == if n == 0 { 0 } else { dur / n as u64 }, "mean duration {}", st.mean_position_duration.0);
            ensure!(same(st.max_drawdown, mdd), "max drawdown {}, expected {mdd}", st.max_drawdown);
            ensure!(st.max_drawdown >= 0.0 && st.mean_drawdown <= st.max_drawdown + 1e-12 && st.mean_drawdown >= 0.0, "mean drawdown {} max {}", st.mean_drawdown, st.max_drawdown);
            ensure!(st.num_positions == n as u32 && st.num_positions_in_profit + st.num_positions_in_loss == n as u32, "{} in profit, {} in loss of {}", st.num_positions_in_profit, st.num_positions_in_loss, st.num_positions);
            if exact || near == 0 { ensure!(st.num_positions_in_profit == win && st.num_positions_in_loss == loss, "{} in profit, {} in loss, expected {win} and {loss}", st.num_positions_in_profit, st.num_positions_in_loss); }
            ensure!(st.num_stop_losses == slc && st.num_take_profits == tpc, "{} stop losses, {} take profits", st.num_stop_losses, st.num_take_profits);
            let rm = if mdd == 0.0 { 0.0 } else { profit / s.quote / mdd };
            if mdd > 1e-6 || mdd == 0.0 && exact { ensure!((st.return_over_max_drawdown - rm).abs() <= 1e-6 * (1.0 + rm.abs()), "return over max drawdown {}, expected {rm}", st.return_over_max_drawdown); }
            ensure!(close(get_profit(&s), st.profit), "quick profit {}, full {}", get_profit(&s), st.profit);
            let qr = get_return_over_max_drawdown(&s);
            ensure!((qr - st.return_over_max_drawdown).abs() <= 1e-6 * (1.0 + qr.abs()) || mdd.abs() < 1e-6 && mdd != 0.0, "quick return over max drawdown {qr}, full {}", st.return_over_max_drawdown);
            Ok(win > 0 && loss > 0 && mdd > 0.0)
        });
    }
}

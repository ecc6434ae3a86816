//! One backtest case for C06-C08: random parameters, candles, fees, filters, borrow terms.
use crate::c13::random_strategy;
use crate::ctx::*;
use crate::gen::*;
use juno::filters::{Price, Size};
use juno::trading::*;
use juno::{stop_loss as sl, take_profit as tp};
use juno::{Advice, BorrowInfo, Candle, Fees, Filters, Interval, Timestamp};

pub struct Case {
    pub params: TradingParams,
    pub candles: Vec<Candle>,
    pub fees: Fees,
    pub filters: Filters,
    pub borrow: BorrowInfo,
    pub mm: u32,
    pub quote: f64,
    pub long: bool,
    pub short: bool,
}
impl Case {
    pub fn desc(&self) -> String {
        let p: Vec<String> = self.candles.iter().map(|c| format!("{}:{}/{}/{}", c.time.0, c.high, c.low, c.close)).collect();
        format!("{:?} {:?} {:?} {:?} mm {} quote {} long {} short {} candles {}", self.params, self.fees, self.filters, self.borrow, self.mm, self.quote, self.long, self.short, p.join(" "))
    }
    pub fn run(&self) -> TradingSummary {
        trade(&self.params, &TradeInput {
            candles: &self.candles, fees: &self.fees, filters: &self.filters, borrow_info: &self.borrow,
            margin_multiplier: self.mm, quote: self.quote, long: self.long, short: self.short,
        })
    }
    pub fn iv(&self) -> Interval { self.params.trader.interval }
    pub fn bunit(&self) -> f64 { 10f64.powi(-(self.filters.base_precision as i32)) }
    pub fn qunit(&self) -> f64 { 10f64.powi(-(self.filters.quote_precision as i32)) }
    /// changed advice at every candle, from a fresh strategy object and the change rule restated
    pub fn advices(&self) -> Vec<Advice> {
        let mut s = self.params.strategy.construct(&juno::strategies::StrategyMeta { interval: self.iv() });
        let mut last = Advice::None;
        self.candles.iter().map(|c| {
            s.update(c);
            let a = s.advice();
            if a != Advice::None && a != last { last = a; a } else { Advice::None }
        }).collect()
    }
    /// float noise allowed in a capital replayed from the fills
    pub fn slack(&self, q: f64) -> f64 { 1e-11 * self.quote.max(q.abs()) }
    pub fn size_ok(&self, q: f64, price: f64, got: f64) -> bool {
        let d = self.slack(q);
        size_ok2(&self.filters.size, (q - d) / price, (q + d) / price, got)
    }
    /// none if the tradable size of capital q at this price hinges on float noise
    pub fn tradable(&self, q: f64, price: f64) -> Option<bool> {
        let d = self.slack(q);
        let f = |q: f64| down(&self.filters.size, q / price) > 0.0;
        let (a, b) = (f(q - d), f(q + d));
        if a == b { Some(a) } else { None }
    }
}
/// the size filter restated
pub fn down(f: &Size, v: f64) -> f64 {
    if v < f.min { return 0.0; }
    let v = if f.max > 0.0 && v > f.max { f.max } else { v };
    if f.step > 0.0 { (v / f.step).floor() * f.step } else { v }
}
pub fn down_ok(x: f64, got: f64, unit: f64) -> bool {
    let e = 1e-9 * unit.max(x.abs()) + 1e-12;
    got <= x + e && got > x - unit - e && { let k = got / unit; (k - k.round()).abs() <= 1e-6 + 1e-15 * k.abs() }
}
pub fn half_ok(x: f64, got: f64, unit: f64) -> bool {
    let e = 1e-9 * unit.max(x.abs()) + 1e-12;
    (got - x).abs() <= unit / 2.0 + e
}
/// `got` is what the filter makes of some value in [lo, hi]
pub fn size_ok2(f: &Size, lo: f64, hi: f64, got: f64) -> bool {
    let e = 1e-9 * got.abs().max(f.step);
    down(f, lo) - e <= got && got <= down(f, hi) + e && (got == 0.0 || got >= f.min.min(f.max) - f.step - e)
        && (f.step == 0.0 || { let k = got / f.step; (k - k.round()).abs() <= 1e-6 + 1e-15 * k.abs() })
}
pub fn size_ok(f: &Size, v: f64, got: f64) -> bool {
    size_ok2(f, v * (1.0 - 1e-11), v * (1.0 + 1e-11), got)
}
pub fn random_case(c: &mut Ctx, i: usize) -> Case {
    let iv = c.pick(&[1, 60_000, 3_600_000, 86_400_000]);
    let n = match i % 10 { 0 => c.u(0, 3) as usize, _ => c.u(10, 120) as usize };
    let wick = c.b(0.7);
    let mut candles = if n == 0 { vec![] } else { candles(c, n, iv, wick) };
    let big = c.pick(&[2, 4, 7]);
    let strategy = random_strategy(c, i % 9, big, iv);
    let buffered = matches!(strategy, juno::strategies::StrategyParams::Sig(p) if p.buffer_interval.is_some());
    if c.b(0.3) && !buffered { // gaps
        let mut skip = 0;
        for k in candles.iter_mut() { if c.b(0.1) { skip += c.u(1, 5) * iv } *k = Candle { time: Timestamp(k.time.0 + skip), ..*k } }
    }
    let th = |c: &mut Ctx| c.pick(&[0.01, 0.02, 0.05, 0.1, 0.25, 0.0625]);
    let stop_loss = match c.u(0, 5) {
        0 => sl::StopLossParams::Basic(sl::BasicParams { up_threshold: th(c), down_threshold: th(c) }),
        1 => sl::StopLossParams::Trailing(sl::TrailingParams { up_threshold: th(c), down_threshold: th(c) }),
        2 => sl::StopLossParams::BasicPlusTrailing(sl::BasicPlusTrailingParams { basic: sl::BasicParams { up_threshold: th(c), down_threshold: th(c) }, trailing: sl::TrailingParams { up_threshold: th(c), down_threshold: th(c) } }),
        3 => sl::StopLossParams::Legacy(sl::LegacyParams { threshold: th(c), trail: c.b(0.5) }),
        _ => sl::StopLossParams::Noop(sl::NoopParams {}),
    };
    let take_profit = match c.u(0, 4) {
        0 => tp::TakeProfitParams::Basic(tp::BasicParams { up_threshold: th(c), down_threshold: th(c) }),
        1 => tp::TakeProfitParams::Legacy(tp::LegacyParams { threshold: th(c) }),
        2 => tp::TakeProfitParams::Trending(tp::TrendingParams { up_thresholds: (th(c), th(c)), down_thresholds: (th(c), th(c)), period: c.u(1, 5) as u32, lock_threshold: c.b(0.5), easing: juno::easing::Easing::QuadIn }),
        _ => tp::TakeProfitParams::Noop(tp::NoopParams {}),
    };
    let price = candles.first().map_or(1.0, |k| k.close);
    let step = match c.u(0, 4) { 0 => 0.0, 1 => 1.0 / 1024.0, 2 => 0.125, 3 => 10f64.powi(-(c.u(0, 6) as i32)), _ => 1e-8 };
    let quote = match c.u(0, 4) { 0 => price * c.f(0.0, 2.0), 1 => 1.0, 2 => 1000.0, _ => price * c.f(1.0, 100.0) };
    let some = |c: &mut Ctx, p: f64, v: f64| if c.b(p) { v } else { 0.0 };
    let (mn, mx) = (c.f(0.0, 0.5) * quote / price, c.f(0.3, 2.0) * quote / price);
    let size = Size { min: some(c, 0.4, mn), max: some(c, 0.3, mx), step };
    Case {
        params: TradingParams { strategy, trader: TraderParams { interval: Interval(iv) }, stop_loss, take_profit },
        fees: Fees { maker: c.f(0.0, 0.01), taker: c.pick(&[0.0, 0.001, 0.0075, 0.01, 0.0625]) },
        filters: Filters { price: Price { min: 0.0, max: 0.0, step: 0.0 }, size, base_precision: c.pick(&[0, 2, 8, 8, 8, 12]), quote_precision: c.pick(&[0, 2, 8, 8, 8, 12]) },
        borrow: BorrowInfo {
            interest_interval: { let k = c.u(1, 5); c.pick(&[1, iv, iv * k, iv * 7 + 1, 86_400_000]) },
            interest_rate: c.pick(&[0.0, 0.0001, 0.002, 0.0625]),
            limit: if c.b(0.3) { c.f(0.0, 2.0) * quote / price } else { 1e300 },
        },
        mm: c.u(1, 5) as u32,
        quote,
        long: c.b(0.85),
        short: c.b(0.85),
        candles,
    }
}

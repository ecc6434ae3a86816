use crate::c14::random_summary;
use crate::ctx::*;
use crate::ensure;
use juno::statistics::*;
use juno::trading::*;
use juno::Interval;
use std::collections::HashMap;

struct Ratios { ret: f64, sharpe: Option<f64>, sortino: Option<f64> } // None: hinges on float noise
fn ratio(ret: f64, xs: &[f64]) -> Option<f64> {
    if xs.is_empty() { return Some(0.0) }
    let m = xs.iter().sum::<f64>() / xs.len() as f64;
    let sd = (xs.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / xs.len() as f64).sqrt();
    if sd == 0.0 && xs.len() <= 2 { return Some(0.0) } // exactly no risk
    if sd < 1e-7 { return None }
    Some(ret / (365f64.sqrt() * sd))
}
fn expected(s: &TradingSummary, base: &[f64], quote: &[f64], iv: u64) -> Ratios {
    let (a, b) = (s.start.0 / iv, s.end.0 / iv);
    let mut perf = vec![s.quote * quote[0]];
    for p in a..b {
        // everything that happened before the end of the period
        let (mut bh, mut qh) = (0.0, s.quote);
        for x in &s.positions {
            let (o, z, gain_b, cost, cost_b, gain) = match x {
                Position::Long(x) => (x.open_time.0, x.close_time.0, x.open_fills[0].size - x.open_fills[0].fee, x.open_fills[0].quote, x.close_fills[0].size, x.close_fills[0].quote - x.close_fills[0].fee),
                Position::Short(x) => (x.open_time.0, x.close_time.0, x.borrowed, x.collateral, x.borrowed, x.open_fills[0].quote - x.open_fills[0].fee + x.collateral - x.close_fills[0].quote),
            };
            if o < (p + 1) * iv { bh += gain_b; qh -= cost }
            if z < (p + 1) * iv { bh -= cost_b; qh += gain }
        }
        let i = (p - a + 1) as usize;
        perf.push(bh * base[i] + qh * quote[i]);
    }
    let g: Vec<f64> = perf.windows(2).map(|w| (w[1] / w[0]).ln()).collect();
    let ret = 365.0 * g.iter().sum::<f64>() / g.len() as f64;
    if ret.is_nan() || ret == 0.0 || g.is_empty() { return Ratios { ret, sharpe: Some(0.0), sortino: Some(0.0) } }
    if ret.is_infinite() { return Ratios { ret, sharpe: Some(0.0), sortino: Some(0.0) } }
    let neg: Vec<f64> = g.iter().cloned().filter(|x| *x < 0.0).collect();
    // whether a period is losing hinges on float noise
    let fuzzy = g.iter().any(|x| x.abs() < 1e-12 && *x != 0.0) || ret.abs() < 1e-9 || perf.iter().any(|x| x.abs() < 1e-9);
    Ratios { ret, sharpe: if fuzzy { None } else { ratio(ret, &g) }, sortino: if fuzzy { None } else { ratio(ret, &neg) } }
}
pub fn run(c: &mut Ctx) {
    c.rule = "random summaries and price series (constant, flat quote, dyadic growth, random), windows from zero periods on: no failure, finite ratios, the value recomputed from the definition, fast equal to full; ratios whose volatility is float noise are only required to be finite; non-trivial: both ratios non-zero".into();
    for i in 0..c.n(20000) {
        if c.done() { return; }
        let iv = c.pick(&[1, 4, 1000, 86_400_000]);
        let exact = i % 2 == 0;
        let mut s = random_summary(c, exact, iv);
        match i % 7 {
            0 => { s.positions.clear(); }
            // backtests of a few periods
            1 | 2 => { let n = c.u(0, 2) as usize; s.positions.truncate(n); s.end = juno::Timestamp(s.positions.last().map_or(s.start.0, |p| crate::c14::facts(p).1) + c.u(0, 2 * iv)); }
            _ => {}
        }
        if c.b(0.6) { s.quote += 1000.0 } // keeps the value positive
        let n = (s.end.0 / iv - s.start.0 / iv) as usize + 1;
        let mut ser = |c: &mut Ctx| -> Vec<f64> {
            let k = c.u(0, 3);
            let mut p = c.pick(&[1.0, 0.5, 64.0]);
            (0..n).map(|_| { match k { 0 => {} 1 => p *= 2.0, 2 => p *= c.pick(&[0.5, 1.0, 2.0]), _ => p *= 1.0 + c.f(-0.2, 0.2) } p }).collect()
        };
        let base = ser(c);
        let quote = if c.b(0.5) { vec![1.0; n] } else { ser(c) };
        c.case(|| format!("interval {iv} base {base:?} quote {quote:?} {}", serde_json::to_string(&s).unwrap()), || {
            let mut prices = HashMap::new();
            prices.insert("eth".to_string(), base.clone());
            prices.insert("btc".to_string(), quote.clone());
            let full = ExtendedStatistics::compose(&s, "eth-btc", &prices, Interval(iv));
            let (sh, so) = (get_sharpe_ratio(&s, "eth-btc", &prices, Interval(iv)), get_sortino_ratio(&s, "eth-btc", &prices, Interval(iv)));
            for (n, v) in [("full Sharpe", full.sharpe_ratio), ("full Sortino", full.sortino_ratio), ("fast Sharpe", sh), ("fast Sortino", so)] {
                ensure!(v.is_finite(), "{n} ratio is {v}");
            }
            let e = expected(&s, &base, &quote, iv);
            if e.ret.is_finite() { ensure!((full.annualized_return - e.ret).abs() <= 1e-6 * (1.0 + e.ret.abs()), "annualized return {}, expected {}", full.annualized_return, e.ret); }
            let ok = |a: f64, b: f64| (a - b).abs() <= 1e-5 * (1.0 + b.abs());
            if let Some(x) = e.sharpe {
                ensure!(ok(sh, x), "fast Sharpe ratio {sh}, expected {x}");
                ensure!(ok(full.sharpe_ratio, x), "full Sharpe ratio {}, expected {x}", full.sharpe_ratio);
            }
            if let Some(x) = e.sortino {
                ensure!(ok(so, x), "fast Sortino ratio {so}, expected {x}");
                ensure!(ok(full.sortino_ratio, x), "full Sortino ratio {}, expected {x}", full.sortino_ratio);
            }
            Ok(e.sharpe.map_or(false, |x| x != 0.0) && e.sortino.map_or(false, |x| x != 0.0))
        });
    }
}

//! Input generators shared by the property modules.
#![allow(dead_code)]
use crate::ctx::Ctx;
use juno::{Candle, Timestamp};

pub fn candle(time: u64, close: f64) -> Candle {
    Candle { time: Timestamp(time), open: close, high: close, low: close, close, volume: 1.0 }
}
/// price paths of several characters: flat, dyadic steps, random walk, jumps, trend, alternating
pub fn prices(c: &mut Ctx, n: usize) -> Vec<f64> {
    let kind = c.u(0, 6);
    let base = c.pick(&[1.0, 8.0, 100.0, 0.0625, 50_000.0]);
    let mut p = base;
    let up = c.b(0.5);
    (0..n)
        .map(|i| {
            match kind {
                0 => {}
                1 => p = base * (1.0 + 0.125 * c.u(0, 8) as f64),
                2 => p *= 1.0 + c.f(-0.03, 0.03),
                3 => if c.b(0.1) { p = base * c.f(0.3, 3.0) },
                4 => p *= 1.0 + if up { 1.0 } else { -1.0 } * c.f(0.0, 0.02),
                5 => p = base * if i % 2 == 0 { 1.0 } else { 1.25 },
                _ => if c.b(0.3) { p *= 1.0 + c.f(-0.1, 0.1) },
            }
            p
        })
        .collect()
}
/// candles with open/high/low around the price path
pub fn candles(c: &mut Ctx, n: usize, interval: u64, wick: bool) -> Vec<Candle> {
    let p = prices(c, n);
    let start = c.u(0, 1000) * interval;
    let mut prev = p[0.min(n.max(1) - 1)];
    p.iter()
        .enumerate()
        .map(|(i, &close)| {
            let open = prev;
            prev = close;
            let (mut hi, mut lo) = (open.max(close), open.min(close));
            if wick {
                if c.b(0.6) { hi *= 1.0 + c.f(0.0, 0.02) }
                if c.b(0.6) { lo *= 1.0 - c.f(0.0, 0.02) }
            }
            Candle { time: Timestamp(start + i as u64 * interval), open, high: hi, low: lo, close, volume: c.f(0.0, 10.0) }
        })
        .collect()
}

use crate::ctx::*;
use crate::ensure;
use crate::ind::{self, Bar};
use juno::easing::Easing;
use juno::take_profit::*;
use juno::{Candle, Timestamp};

pub const EASINGS: [(Easing, fn(f64) -> f64); 31] = [
    (Easing::Linear, |x| x),
    (Easing::QuadIn, ezing::quad_in::<f64>), (Easing::QuadOut, ezing::quad_out::<f64>), (Easing::QuadInout, ezing::quad_inout::<f64>),
    (Easing::CubicIn, ezing::cubic_in::<f64>), (Easing::CubicOut, ezing::cubic_out::<f64>), (Easing::CubicInout, ezing::cubic_inout::<f64>),
    (Easing::QuartIn, ezing::quart_in::<f64>), (Easing::QuartOut, ezing::quart_out::<f64>), (Easing::QuartInout, ezing::quart_inout::<f64>),
    (Easing::QuintIn, ezing::quint_in::<f64>), (Easing::QuintOut, ezing::quint_out::<f64>), (Easing::QuintInout, ezing::quint_inout::<f64>),
    (Easing::SineIn, ezing::sine_in::<f64>), (Easing::SineOut, ezing::sine_out::<f64>), (Easing::SineInout, ezing::sine_inout::<f64>),
    (Easing::CircIn, ezing::circ_in::<f64>), (Easing::CircOut, ezing::circ_out::<f64>), (Easing::CircInout, ezing::circ_inout::<f64>),
    (Easing::ExpoIn, ezing::expo_in::<f64>), (Easing::ExpoOut, ezing::expo_out::<f64>), (Easing::ExpoInout, ezing::expo_inout::<f64>),
    (Easing::ElasticIn, ezing::elastic_in::<f64>), (Easing::ElasticOut, ezing::elastic_out::<f64>), (Easing::ElasticInout, ezing::elastic_inout::<f64>),
    (Easing::BackIn, ezing::back_in::<f64>), (Easing::BackOut, ezing::back_out::<f64>), (Easing::BackInout, ezing::back_inout::<f64>),
    (Easing::BounceIn, ezing::bounce_in::<f64>), (Easing::BounceOut, ezing::bounce_out::<f64>), (Easing::BounceInout, ezing::bounce_inout::<f64>),
];
#[derive(Clone, Copy)]
enum Ev { Open(Candle), Upd(Candle) }
fn ge(a: f64, b: f64, exact: bool) -> Option<bool> {
    if !exact && (a - b).abs() <= 1e-7 * a.abs().max(b.abs()) { None } else { Some(a >= b) }
}
fn adx_value(h: &[Ev], n: usize) -> f64 {
    let b: Vec<Bar> = h.iter().filter_map(|e| if let Ev::Upd(c) = e { Some(Bar { h: c.high, l: c.low, c: c.close }) } else { None }).collect();
    ind::adx(&b, n).last().cloned().flatten().unwrap_or(0.0)
}
/// (long, short) or None if not decided
fn rule(p: &TakeProfitParams, h: &[Ev], ex: bool) -> Option<(Option<bool>, Option<bool>)> {
    let oi = h.iter().rposition(|e| matches!(e, Ev::Open(_)))?;
    let ci = h.iter().rposition(|e| matches!(e, Ev::Upd(_)))?;
    let (at, c) = match (h[oi], h[ci]) { (Ev::Open(a), Ev::Upd(b)) => (a.close, b.close), _ => unreachable!() };
    let by = |u: f64, d: f64, ex: bool| (ge(c, at * (1.0 + u), ex), ge(at * (1.0 - d), c, ex));
    Some(match p {
        TakeProfitParams::Basic(p) => by(p.up_threshold, p.down_threshold, ex),
        TakeProfitParams::Legacy(p) => if p.threshold > 0.0 { by(p.threshold, p.threshold, ex) } else { (Some(false), Some(false)) },
        TakeProfitParams::Noop(_) => (Some(false), Some(false)),
        TakeProfitParams::Trending(p) => {
            let seen = if p.lock_threshold { &h[..=oi] } else { &h[..=ci] };
            let f = EASINGS.iter().find(|x| x.0 == p.easing).unwrap().1;
            let w = f(adx_value(seen, p.period as usize) / 100.0);
            let mix = |b: (f64, f64)| w * b.0 + (1.0 - w) * b.1;
            by(mix(p.up_thresholds), mix(p.down_thresholds), false)
        }
    })
}
pub fn run(c: &mut Ctx) {
    c.rule = "random clear/update histories over every take profit variant built through TakeProfitParams::construct, all 31 easings; the trend strength and the easing are recomputed from their definitions; dyadic cases compared exactly, others outside a 1e-7 band; non-trivial: a hit and a miss both observed".into();
    for i in 0..c.n(6000) {
        if c.done() { return; }
        let exact = i % 2 == 0;
        let th = |c: &mut Ctx| if exact { c.pick(&[0.0, 0.125, 0.25, 0.5, 0.875]) } else { c.f(0.001, 1.0) };
        let (a, b) = (th(c), th(c));
        let lock = c.b(0.5);
        let p = match i % 6 {
            0 => TakeProfitParams::Basic(BasicParams { up_threshold: a, down_threshold: b }),
            1 => TakeProfitParams::Legacy(LegacyParams { threshold: if c.b(0.2) { 0.0 } else { a } }),
            2 => TakeProfitParams::Noop(NoopParams {}),
            _ => {
                let (u, d) = ((c.f(0.001, 0.2), c.f(0.2, 0.8)), (c.f(0.001, 0.2), c.f(0.2, 0.8)));
                TakeProfitParams::Trending(TrendingParams { up_thresholds: u, down_thresholds: d, period: c.u(1, 9) as u32, lock_threshold: lock, easing: EASINGS[(i / 6) % 31].0 })
            }
        };
        let n = c.u(3, 60) as usize;
        let mut h = vec![];
        let mut px: f64 = 16.0;
        for k in 0..n {
            px = if exact { 8.0 + c.u(0, 32) as f64 * 0.5 } else if c.b(0.2) { px } else { (px * (1.0 + c.f(-0.2, 0.2))).max(1.0) };
            let (hi, lo) = (px * (1.0 + c.f(0.0, 0.05)), px * (1.0 - c.f(0.0, 0.05)));
            let cd = Candle { time: Timestamp(k as u64), open: px, high: hi, low: lo, close: px, volume: 1.0 };
            h.push(Ev::Upd(cd));
            if c.b(0.2) { h.push(Ev::Open(cd)); }
        }
        let d: Vec<String> = h.iter().map(|e| match e { Ev::Open(x) => format!("clear({})", x.close), Ev::Upd(x) => format!("update({},{},{})", x.high, x.low, x.close) }).collect();
        c.case(|| format!("{p:?} {}", d.join(" ")), || {
            let mut s = p.construct();
            let (mut hit, mut miss) = (false, false);
            for k in 0..h.len() {
                match h[k] { Ev::Open(x) => s.clear(&x), Ev::Upd(x) => s.update(&x) }
                if let Some((l, sh)) = rule(&p, &h[..=k], exact) {
                    let (gl, gs) = (s.upside_hit(), s.downside_hit());
                    ensure!(l.map_or(true, |l| l == gl), "after step {k}: long take profit is {gl}");
                    ensure!(sh.map_or(true, |x| x == gs), "after step {k}: short take profit is {gs}");
                    hit |= gl || gs;
                    miss |= !gl || !gs;
                }
            }
            Ok(hit && miss)
        });
    }
}

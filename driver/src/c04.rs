use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use juno::stop_loss::*;

#[derive(Clone, Copy)]
enum Ev { Open(f64), Upd(f64) }
/// (close, close at opening, high since, low since)
fn obs(h: &[Ev]) -> Option<(f64, f64, f64, f64)> {
    let o = h.iter().rposition(|e| matches!(e, Ev::Open(_)))?;
    let c = h.iter().rev().find_map(|e| if let Ev::Upd(x) = e { Some(*x) } else { None })?;
    let at = if let Ev::Open(x) = h[o] { x } else { unreachable!() };
    let since: Vec<f64> = h[o..].iter().map(|e| match e { Ev::Open(x) | Ev::Upd(x) => *x }).collect();
    Some((c, at, since.iter().cloned().fold(f64::MIN, f64::max), since.iter().cloned().fold(f64::MAX, f64::min)))
}
// Some(true/false) = certain, None = within rounding of the level
fn le(a: f64, b: f64, exact: bool) -> Option<bool> {
    if !exact && (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) { None } else { Some(a <= b) }
}
fn or(a: Option<bool>, b: Option<bool>) -> Option<bool> {
    if a == Some(true) || b == Some(true) { Some(true) } else if a == Some(false) && b == Some(false) { Some(false) } else { None }
}
fn rule(p: &StopLossParams, o: (f64, f64, f64, f64), ex: bool) -> (Option<bool>, Option<bool>) {
    let (c, at, hi, lo) = o;
    let basic = |p: &BasicParams| (le(c, at * (1.0 - p.up_threshold), ex), le(at * (1.0 + p.down_threshold), c, ex));
    let trail = |p: &TrailingParams| (le(c, hi * (1.0 - p.up_threshold), ex), le(lo * (1.0 + p.down_threshold), c, ex));
    match p {
        StopLossParams::Basic(p) => basic(p),
        StopLossParams::Trailing(p) => trail(p),
        StopLossParams::BasicPlusTrailing(p) => { let (a, b) = (basic(&p.basic), trail(&p.trailing)); (or(a.0, b.0), or(a.1, b.1)) }
        StopLossParams::Legacy(p) => {
            if !(p.threshold > 0.0) { (Some(false), Some(false)) } else {
                let (h, l) = if p.trail { (hi, lo) } else { (at, at) };
                (le(c, h * (1.0 - p.threshold), ex), le(l * (1.0 + p.threshold), c, ex))
            }
        }
        StopLossParams::Noop(_) => (Some(false), Some(false)),
    }
}
pub fn run(c: &mut Ctx) {
    c.rule = "random clear/update histories over every stop loss variant built through StopLossParams::construct; dyadic thresholds and prices compared exactly (ties included), others outside a 1e-9 band; non-trivial: a hit and a miss both observed".into();
    for i in 0..c.n(6000) {
        if c.done() { return; }
        let exact = i % 2 == 0;
        let th = |c: &mut Ctx| if exact { c.pick(&[0.0, 0.125, 0.25, 0.5, 0.875]) } else { c.f(0.001, 1.0) };
        let (a, b, d, e) = (th(c), th(c), th(c), th(c));
        let p = match i % 5 {
            0 => StopLossParams::Basic(BasicParams { up_threshold: a, down_threshold: b }),
            1 => StopLossParams::Trailing(TrailingParams { up_threshold: a, down_threshold: b }),
            2 => StopLossParams::BasicPlusTrailing(BasicPlusTrailingParams { basic: BasicParams { up_threshold: a, down_threshold: b }, trailing: TrailingParams { up_threshold: d, down_threshold: e } }),
            3 => StopLossParams::Legacy(LegacyParams { threshold: if c.b(0.2) { 0.0 } else { a }, trail: c.b(0.5) }),
            _ => StopLossParams::Noop(NoopParams {}),
        };
        let n = c.u(3, 40) as usize;
        let mut h = vec![];
        let mut px = 16.0;
        for _ in 0..n {
            px = if exact { 16.0 + c.u(0, 32) as f64 * 0.5 - 8.0 } else if c.b(0.2) { px } else { (px * (1.0 + c.f(-0.2, 0.2))).max(1.0) };
            h.push(Ev::Upd(px));
            if c.b(0.25) { h.push(Ev::Open(px)); }
        }
        let d: Vec<String> = h.iter().map(|e| match e { Ev::Open(x) => format!("clear({x})"), Ev::Upd(x) => format!("update({x})") }).collect();
        c.case(|| format!("{p:?} {}", d.join(" ")), || {
            let mut s = p.construct();
            let (mut hit, mut miss) = (false, false);
            for k in 0..h.len() {
                match h[k] { Ev::Open(x) => s.clear(&candle(0, x)), Ev::Upd(x) => s.update(&candle(0, x)) }
                if let Some(o) = obs(&h[..=k]) {
                    let (l, sh) = rule(&p, o, exact);
                    let (gl, gs) = (s.upside_hit(), s.downside_hit());
                    ensure!(l.map_or(true, |l| l == gl), "after step {k}: long stop loss is {gl}, close/open/high/low = {o:?}");
                    ensure!(sh.map_or(true, |x| x == gs), "after step {k}: short stop loss is {gs}, close/open/high/low = {o:?}");
                    hit |= gl || gs;
                    miss |= !gl || !gs;
                }
            }
            Ok(hit && miss)
        });
    }
}

use crate::ctx::*;
use crate::ensure;
use juno::filters::{Price, Size};
use juno::math::{round_down, round_half_up};

fn expect(min: f64, max: f64, step: f64, v: f64, r: f64, exact: bool) -> Out {
    let e = if exact { 0.0 } else { 1e-9 };
    if v < min {
        ensure!(r == 0.0, "below the minimum but result {r}");
        return Ok(true);
    }
    let c = if max > 0.0 && v > max { max } else { v };
    ensure!(r.is_finite(), "result {r}");
    ensure!(r <= c + e * c.max(step), "result {r} above {c}");
    if step > 0.0 {
        ensure!(c < r + step + e * c.max(step), "result {r}: {step} more would still fit under {c}");
        let q = r / step;
        ensure!((q - q.round()).abs() <= e * q.abs().max(1.0), "result {r} is not a multiple of {step}");
    } else {
        ensure!(r == c, "result {r}, expected {c}");
    }
    Ok(v > min && (step > 0.0 || max > 0.0))
}
pub fn run(c: &mut Ctx) {
    c.rule = "filters on a dyadic grid (exact comparison) and decimal filters (1e-9 tolerance); decimal rounding of dyadic values against 128-bit integers, precision 0..=15; non-trivial: a rule of the filter applies / value not already rounded".into();
    let grid = [0.0, 0.125, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 10.0];
    for &min in &grid {
        for &max in &grid {
            for &step in &grid {
                for k in 0..100 {
                    let v = k as f64 * 0.125 + if k % 3 == 0 { 0.0625 } else { 0.0 };
                    c.case(|| format!("filter {{min {min}, max {max}, step {step}}} value {v}"), || {
                        expect(min, max, step, v, Price { min, max, step }.round_down(v), true)?;
                        expect(min, max, step, v, Size { min, max, step }.round_down(v), true)
                    });
                }
            }
        }
    }
    for _ in 0..c.n(60_000) {
        if c.done() { return; }
        let p = c.u(0, 8) as i32;
        let step = if c.b(0.15) { 0.0 } else { 10f64.powi(-p) * c.pick(&[1.0, 2.0, 5.0]) };
        let min = if c.b(0.4) { 0.0 } else { c.f(0.0, 10.0) };
        let max = if c.b(0.4) { 0.0 } else { c.f(0.1, 1000.0) };
        let v = match c.u(0, 3) { 0 => c.f(0.0, 1.0), 1 => c.f(0.0, 2000.0), 2 => min, _ => c.f(0.0, 1e6) };
        c.case(|| format!("filter {{min {min}, max {max}, step {step}}} value {v}"), || {
            expect(min, max, step, v, Price { min, max, step }.round_down(v), false)?;
            expect(min, max, step, v, Size { min, max, step }.round_down(v), false)
        });
    }
    for i in 0..c.n(60_000) {
        if c.done() { return; }
        let p = if i < 200 { (i % 16) as u32 } else { c.u(0, 15) as u32 };
        // |m| * 10^p below 2^52 so that value * 10^p is exact
        let lim = ((1u64 << 50) as f64 / 10f64.powi(p as i32)) as u64 + 1;
        let b = c.pick(&[0u32, 1, 2, 3, 6]);
        let m = c.u(0, lim) as i128 * if c.b(0.3) { -1 } else { 1 };
        let v = m as f64 / (1u64 << b) as f64;
        c.case(|| format!("value {v} precision {p}"), || {
            let den = 1i128 << b;
            let num = m * 10i128.pow(p);
            let fl = num.div_euclid(den);
            let hu = if num >= 0 { (2 * num + den).div_euclid(2 * den) } else { -((-2 * num + den).div_euclid(2 * den)) };
            let f = 10f64.powi(p as i32);
            let (d, h) = (round_down(v, p), round_half_up(v, p));
            ensure!(close(d, fl as f64 / f), "round_down = {d}, expected {}", fl as f64 / f);
            ensure!(close(h, hu as f64 / f), "round_half_up = {h}, expected {}", hu as f64 / f);
            Ok(num % den != 0)
        });
    }
}

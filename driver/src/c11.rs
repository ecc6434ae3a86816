use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::ind;
use juno::indicators::*;

pub fn random_ma(c: &mut Ctx, kind: usize, period: u32) -> MAParams {
    match kind {
        0 => MAParams::Sma(SmaParams { period }),
        1 => MAParams::Ema(EmaParams { period, smoothing: if c.b(0.3) { Some(c.pick(&[1.0, 0.5, 0.15, 0.01])) } else { None } }),
        2 => MAParams::Smma(SmmaParams { period }),
        3 => MAParams::Ema2(Ema2Params { period }),
        4 => MAParams::Dema(DemaParams { period }),
        5 => MAParams::Kama(KamaParams { period }),
        _ => MAParams::Alma(AlmaParams { period, offset: c.pick(&[0.85, 0.5, 0.1, 0.99]), sigma: if c.b(0.4) { Some(c.u(1, 9) as u32) } else { None } }),
    }
}
fn check(p: &MAParams, m: &mut Box<dyn MA>, x: &[f64]) -> Out {
    let (mat, v) = ind::ma(p, x);
    ensure!(m.maturity() == mat as u32, "declares maturity {}, expected {mat}", m.maturity());
    ensure!(!m.mature(), "mature without any price");
    let scale = x.iter().fold(0f64, |a, b| a.max(b.abs()));
    for t in 1..=x.len() {
        m.update(x[t - 1]);
        ensure!(m.mature() == (t >= mat), "after {t} prices mature() is {}", m.mature());
        ensure!(m.maturity() == mat as u32, "declared maturity changed");
        if t >= mat {
            let g = m.value();
            ensure!(g.is_finite(), "after {t} prices the value is {g}");
            let e = v[t - 1].unwrap();
            ensure!(ind::close_to(g, e, scale), "after {t} prices the value is {g}, expected {e}");
            if !matches!(p, MAParams::Dema(_)) {
                let (lo, hi) = x[..t].iter().fold((f64::MAX, f64::MIN), |a, &b| (a.0.min(b), a.1.max(b)));
                ensure!(g >= lo - 1e-9 * scale && g <= hi + 1e-9 * scale, "after {t} prices the value {g} is outside {lo}..{hi}");
            }
        }
    }
    Ok(x.len() >= mat && x.iter().any(|a| *a != x[0]))
}
pub fn run(c: &mut Ctx) {
    c.rule = "every moving average (periods 1..40, explicit and default smoothing / sigma), through MAParams::construct, against its definition over the whole history at every step (1e-7 relative); also through ma_from_adler32; non-trivial: the average matures on a moving price".into();
    let codes = [adler32::SMA, adler32::EMA, adler32::SMMA, adler32::EMA2, adler32::DEMA, adler32::KAMA, adler32::ALMA];
    for i in 0..c.n(5000) {
        if c.done() { return; }
        let kind = i % 7;
        let period = if i < 70 { 1 + (i / 7) as u32 } else { c.u(1, 40) as u32 };
        let by_code = c.b(0.2);
        let p = if by_code {
            match kind { 1 => MAParams::Ema(EmaParams { period, smoothing: None }), 6 => MAParams::Alma(AlmaParams { period, offset: 0.85, sigma: None }), k => random_ma(c, k, period) }
        } else { random_ma(c, kind, period) };
        let n = c.u(1, 130) as usize;
        let x = prices(c, n);
        c.case(|| format!("{p:?} by_code {by_code} prices {x:?}"), || {
            ensure!(p.period() == period, "period() = {}", p.period());
            let mut m = if by_code { ma_from_adler32(codes[kind], period) } else { p.construct() };
            check(&p, &mut m, &x)
        });
    }
}

use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use crate::ind::{self, Bar};
use juno::indicators::*;

fn same(name: &str, t: usize, g: f64, e: f64, scale: f64) -> Result<(), String> {
    ensure!(g.is_finite(), "{name} after {t} candles is {g}");
    ensure!(ind::close_to(g, e, scale), "{name} after {t} candles is {g}, expected {e}");
    Ok(())
}
fn range(name: &str, t: usize, g: f64) -> Result<(), String> {
    ensure!((-1e-6..=100.0 + 1e-6).contains(&g), "{name} after {t} candles is {g}, outside 0..100");
    Ok(())
}
pub fn run(c: &mut Ctx) {
    c.rule = "RSI, stochastic, DM, DI, DX, ADX and MACD (periods 1..20) on random, flat, partly flat and trending candles, at every step against whole-history definitions, ranges, finiteness and declared maturity; non-trivial: the oscillator matures".into();
    for i in 0..c.n(4000) {
        if c.done() { return; }
        let n = c.u(1, 110) as usize;
        let wick = c.b(0.7);
        let mut cs = candles(c, n, 1, wick);
        // powers of two and flat stretches: the oracle is then exact and 0/0 situations arise
        if i % 3 == 0 { for k in &mut cs { for f in [&mut k.open, &mut k.high, &mut k.low, &mut k.close] { *f = (*f * 8.0).round() / 8.0 } } }
        let f0 = c.u(0, n as u64 - 1) as usize;
        if c.b(0.4) { let m = cs[f0]; for k in &mut cs[f0..] { let t = k.time; *k = m; k.time = t; k.high = m.close; k.low = m.close; k.open = m.close } }
        let b: Vec<Bar> = cs.iter().map(|k| Bar { h: k.high, l: k.low, c: k.close }).collect();
        let x: Vec<f64> = cs.iter().map(|k| k.close).collect();
        let scale = b.iter().fold(0f64, |a, k| a.max(k.h.abs()));
        let p = if i < 60 { 1 + (i / 6) as u32 } else { c.u(1, 20) as u32 };
        let (q, r) = (c.u(1, 8) as u32, c.u(1, 8) as u32);
        let which = i % 6;
        let d: Vec<String> = b.iter().map(|k| format!("{}/{}/{}", k.h, k.l, k.c)).collect();
        let name = ["rsi", "stoch", "dm+dx", "di", "adx", "macd"][which];
        c.case(|| format!("{name} periods {p} {q} {r}: {}", d.join(" ")), || {
            let mut ripe = false;
            let pu = p as usize;
            // an oscillator's sensitivity blows up when its denominator is tiny compared with the prices
            match which {
                0 => {
                    let mut m = Rsi::new(p);
                    let e = ind::rsi(&x, pu);
                    ensure!(m.maturity() == p + 1, "declares maturity {}", m.maturity());
                    let mv: f64 = x.windows(2).map(|w| (w[1] - w[0]).abs()).sum();
                    for t in 1..=x.len() {
                        m.update(x[t - 1]);
                        ensure!(m.mature() == (t as u32 >= m.maturity()), "mature() after {t} prices is {}", m.mature());
                        range("RSI", t, m.value)?;
                        if m.mature() && (mv == 0.0 || mv > 1e-3 * scale) {
                            ripe = true;
                            // flat tails shrink both means alike; compare only while they are not denormal
                            same("RSI", t, m.value, e[t - 1].unwrap(), 100.0)?;
                        }
                    }
                }
                1 => {
                    let mut m = Stoch::new(p, q, r);
                    let e = ind::stoch(&b, pu, q as usize, r as usize);
                    ensure!(m.maturity() == p + q + r - 2, "declares maturity {}", m.maturity());
                    for t in 1..=b.len() {
                        m.update(b[t - 1].h, b[t - 1].l, b[t - 1].c);
                        ensure!(m.mature() == (t as u32 >= m.maturity()), "mature() after {t} candles is {}", m.mature());
                        range("%K", t, m.k)?;
                        range("%D", t, m.d)?;
                        if m.mature() {
                            ripe = true;
                            let (k, dd) = e[t - 1].unwrap();
                            same("%K", t, m.k, k, 100.0)?;
                            same("%D", t, m.d, dd, 100.0)?;
                        }
                    }
                }
                2 => {
                    let (mut m, mut dx) = (DM::new(p), DX::new(p));
                    let (e, ex) = (ind::dm(&b, pu), ind::dx(&b, pu));
                    ensure!(m.maturity() == p && dx.maturity() == p, "declares maturity {} / {}", m.maturity(), dx.maturity());
                    for t in 1..=b.len() {
                        m.update(b[t - 1].h, b[t - 1].l);
                        dx.update(b[t - 1].h, b[t - 1].l);
                        ensure!(m.mature() == (t as u32 >= p) && dx.mature() == (t as u32 >= p), "mature() after {t} candles is {} / {}", m.mature(), dx.mature());
                        range("DX", t, dx.value)?;
                        ensure!(m.plus_value >= 0.0 && m.minus_value >= 0.0, "DM after {t} candles: {} {}", m.plus_value, m.minus_value);
                        if m.mature() {
                            ripe = true;
                            let (u, dd) = e[t - 1].unwrap();
                            same("+DM", t, m.plus_value, u, scale)?;
                            same("-DM", t, m.minus_value, dd, scale)?;
                            ensure!(ind::close_to(m.sum(), u + dd, scale) && ind::close_to(m.diff(), (u - dd).abs(), scale), "DM sum/diff after {t} candles");
                            same("DX", t, dx.value, ex[t - 1].unwrap(), 100.0)?;
                        }
                    }
                }
                3 => {
                    let mut m = DI::new(p);
                    let e = ind::di(&b, pu);
                    ensure!(m.maturity() == p, "declares maturity {}", m.maturity());
                    for t in 1..=b.len() {
                        m.update(b[t - 1].h, b[t - 1].l, b[t - 1].c);
                        ensure!(m.mature() == (t as u32 >= p), "mature() after {t} candles is {}", m.mature());
                        range("+DI", t, m.plus_value)?;
                        range("-DI", t, m.minus_value)?;
                        if m.mature() {
                            ripe = true;
                            let (u, dd) = e[t - 1].unwrap();
                            same("+DI", t, m.plus_value, u, 100.0)?;
                            same("-DI", t, m.minus_value, dd, 100.0)?;
                        }
                    }
                }
                4 => {
                    let mut m = Adx::new(p);
                    let e = ind::adx(&b, pu);
                    ensure!(m.maturity() == 2 * p, "declares maturity {}", m.maturity());
                    for t in 1..=b.len() {
                        m.update(b[t - 1].h, b[t - 1].l);
                        ensure!(m.mature() == (t as u32 >= m.maturity()), "mature() after {t} candles is {}", m.mature());
                        range("ADX", t, m.value)?;
                        if m.mature() {
                            ripe = true;
                            same("ADX", t, m.value, e[t - 1].unwrap(), 100.0)?;
                        }
                    }
                }
                _ => {
                    let (s, l, g) = if i % 5 == 0 { (12, 26, 9) } else { (p.min(p + q), p + q, r) };
                    let mut m = Macd::new(s, l, g);
                    let e = ind::macd(&x, s as usize, l as usize, g as usize);
                    ensure!(m.maturity() == l + g - 1, "declares maturity {}", m.maturity());
                    for t in 1..=x.len() {
                        m.update(x[t - 1]);
                        ensure!(m.mature() == (t as u32 >= m.maturity()), "mature() after {t} prices is {}", m.mature());
                        if m.mature() {
                            ripe = true;
                            let (v, sg, h) = e[t - 1].unwrap();
                            same("MACD", t, m.value, v, scale)?;
                            same("signal", t, m.signal, sg, scale)?;
                            same("histogram", t, m.histogram, h, scale)?;
                            ensure!(m.histogram == m.value - m.signal || ind::close_to(m.histogram, m.value - m.signal, scale), "histogram is not value - signal");
                        }
                    }
                }
            }
            Ok(ripe)
        });
    }
}

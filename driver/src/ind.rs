//! Executable definitions of the indicators over a whole history (not incremental where that is possible).
#![allow(dead_code)]
use juno::indicators::MAParams;

pub fn close_to(a: f64, b: f64, scale: f64) -> bool {
    a == b || (a - b).abs() <= 1e-7 * scale.max(1e-300)
}
/// mean of the last n of the first t prices
pub fn sma(x: &[f64], t: usize, n: usize) -> f64 {
    x[t - n..t].iter().sum::<f64>() / n as f64
}
pub fn ema(x: &[f64], a: f64) -> Vec<f64> {
    let mut v = vec![];
    for (i, &p) in x.iter().enumerate() {
        v.push(if i == 0 { p } else { a * p + (1.0 - a) * v[i - 1] });
    }
    v
}
/// None while the value is not defined
pub fn smma(x: &[f64], n: usize) -> Vec<Option<f64>> {
    let mut v: Vec<Option<f64>> = vec![];
    for t in 1..=x.len() {
        v.push(if t < n { None } else if t == n { Some(sma(x, n, n)) } else { Some((v[t - 2].unwrap() * (n as f64 - 1.0) + x[t - 1]) / n as f64) });
    }
    v
}
pub fn ema2(x: &[f64], n: usize) -> Vec<Option<f64>> {
    let a = 2.0 / (n as f64 + 1.0);
    let mut v: Vec<Option<f64>> = vec![];
    for t in 1..=x.len() {
        v.push(if t < n { None } else if t == n { Some(sma(x, n, n)) } else { Some(a * x[t - 1] + (1.0 - a) * v[t - 2].unwrap()) });
    }
    v
}
pub fn dema(x: &[f64], n: usize) -> Vec<Option<f64>> {
    let a = 2.0 / (n as f64 + 1.0);
    let e1 = ema(x, a);
    // the second average is fed the prices while the first one warms up, then the first average
    (1..=x.len())
        .map(|t| {
            if t < 2 * n - 1 { return None; }
            let mut feed: Vec<f64> = x[..n].to_vec();
            feed.extend(&e1[n - 1..t]);
            let e2 = ema(&feed, a);
            Some(2.0 * e1[t - 1] - e2[e2.len() - 1])
        })
        .collect()
}
pub fn kama(x: &[f64], n: usize) -> Vec<Option<f64>> {
    let (fast, slow) = (2.0 / 3.0, 2.0 / 31.0);
    let mut v: Vec<Option<f64>> = vec![];
    for t in 1..=x.len() {
        let p = x[t - 1];
        v.push(if t < n {
            None
        } else if t == n {
            Some(p)
        } else {
            let vol: f64 = (0..n).map(|k| (x[t - 1 - k] - x[t - 2 - k]).abs()).sum();
            let er = if vol == 0.0 { 1.0 } else { (p - x[t - 1 - n]).abs() / vol };
            let sc = (er * (fast - slow) + slow) * (er * (fast - slow) + slow);
            let q = v[t - 2].unwrap();
            Some(q + sc * (p - q))
        });
    }
    v
}
pub fn alma(x: &[f64], n: usize, offset: f64, sigma: Option<u32>) -> Vec<Option<f64>> {
    let sigma = sigma.map_or((n as f64 / 1.5).floor(), |s| s as f64);
    let m = (offset * (n as f64 - 1.0)).floor();
    let s = n as f64 / sigma;
    let w: Vec<f64> = (0..n).map(|i| { let d = i as f64 - m; if d == 0.0 { 1.0 } else { (-(d * d) / (2.0 * s * s)).exp() } }).collect();
    let sw: f64 = w.iter().sum();
    (1..=x.len()).map(|t| if t < n { None } else { Some((0..n).map(|i| w[i] * x[t - n + i]).sum::<f64>() / sw) }).collect()
}
/// (declared maturity, values)
pub fn ma(p: &MAParams, x: &[f64]) -> (usize, Vec<Option<f64>>) {
    let n = p.period() as usize;
    match p {
        MAParams::Sma(_) => (n, (1..=x.len()).map(|t| if t < n { None } else { Some(sma(x, t, n)) }).collect()),
        MAParams::Ema(q) => (n, ema(x, q.smoothing.unwrap_or(2.0 / (n as f64 + 1.0))).into_iter().map(Some).collect()),
        MAParams::Smma(_) => (n + 1, smma(x, n)),
        MAParams::Ema2(_) => (n, ema2(x, n)),
        MAParams::Dema(_) => (2 * n - 1, dema(x, n)),
        MAParams::Kama(_) => (n + 1, kama(x, n)),
        MAParams::Alma(q) => (n, alma(x, n, q.offset, q.sigma)),
    }
}
pub struct Bar { pub h: f64, pub l: f64, pub c: f64 }
fn direction(a: &Bar, b: &Bar) -> (f64, f64) {
    let (up, down) = (b.h - a.h, a.l - b.l);
    if up > 0.0 && up > down { (up, 0.0) } else if down > 0.0 && down > up { (0.0, down) } else if up > 0.0 && up == down { (up, down) } else { (0.0, 0.0) }
}
/// +DM / -DM
pub fn dm(b: &[Bar], n: usize) -> Vec<Option<(f64, f64)>> {
    let per = (n as f64 - 1.0) / n as f64;
    let (mut u, mut d) = (0.0, 0.0);
    let mut v = vec![];
    for t in 1..=b.len() {
        if t >= 2 {
            let (x, y) = direction(&b[t - 2], &b[t - 1]);
            if t <= n { u += x; d += y } else { u = u * per + x; d = d * per + y }
        }
        v.push(if t < n { None } else { Some((u, d)) });
    }
    v
}
pub fn true_range(prev_c: f64, b: &Bar) -> f64 {
    (b.h - b.l).max((b.h - prev_c).abs()).max((b.l - prev_c).abs())
}
pub fn di(b: &[Bar], n: usize) -> Vec<Option<(f64, f64)>> {
    let per = (n as f64 - 1.0) / n as f64;
    let m = dm(b, n);
    let mut atr = 0.0;
    let mut v = vec![];
    for t in 1..=b.len() {
        if t >= 2 {
            let r = true_range(b[t - 2].c, &b[t - 1]);
            if t <= n { atr += r } else { atr = atr * per + r }
        }
        v.push(m[t - 1].map(|(u, d)| if atr > 0.0 { (100.0 * u / atr, 100.0 * d / atr) } else { (0.0, 0.0) }));
    }
    v
}
pub fn dx(b: &[Bar], n: usize) -> Vec<Option<f64>> {
    dm(b, n).into_iter().map(|x| x.map(|(u, d)| if u + d > 0.0 { (u - d).abs() / (u + d) * 100.0 } else { 0.0 })).collect()
}
pub fn adx(b: &[Bar], n: usize) -> Vec<Option<f64>> {
    let d: Vec<f64> = dx(b, n).into_iter().flatten().collect();
    let s = smma(&d, n);
    (1..=b.len()).map(|t| if t < n { None } else { s[t - n] }).collect()
}
pub fn rsi(x: &[f64], n: usize) -> Vec<Option<f64>> {
    let up: Vec<f64> = x.windows(2).map(|w| (w[1] - w[0]).max(0.0)).collect();
    let dn: Vec<f64> = x.windows(2).map(|w| (w[0] - w[1]).max(0.0)).collect();
    let (u, d) = (smma(&up, n), smma(&dn, n));
    (1..=x.len())
        .map(|t| if t < n + 1 { None } else {
            let (u, d) = (u[t - 2].unwrap(), d[t - 2].unwrap());
            Some(if u + d == 0.0 { 0.0 } else { 100.0 * u / (u + d) })
        })
        .collect()
}
/// %K, %D
pub fn stoch(b: &[Bar], k: usize, ks: usize, ds: usize) -> Vec<Option<(f64, f64)>> {
    let fast: Vec<f64> = (k..=b.len())
        .map(|t| {
            let w = &b[t - k..t];
            let hi = w.iter().fold(f64::NEG_INFINITY, |a, x| a.max(x.h));
            let lo = w.iter().fold(f64::INFINITY, |a, x| a.min(x.l));
            if hi > lo { 100.0 * (b[t - 1].c - lo) / (hi - lo) } else { 0.0 }
        })
        .collect();
    let kk: Vec<f64> = (ks..=fast.len()).map(|t| sma(&fast, t, ks)).collect();
    (1..=b.len())
        .map(|t| {
            let m = k + ks - 1 + ds - 1;
            if t < m { return None; }
            let ki = t - (k + ks - 1) + 1; // number of %K values so far
            Some((kk[ki - 1], sma(&kk, ki, ds)))
        })
        .collect()
}
/// (value, signal, histogram) from the time both averages are mature
pub fn macd(x: &[f64], s: usize, l: usize, g: usize) -> Vec<Option<(f64, f64, f64)>> {
    let (sa, la) = if s == 12 && l == 26 { (0.15, 0.075) } else { (2.0 / (s as f64 + 1.0), 2.0 / (l as f64 + 1.0)) };
    let (es, el) = (ema(x, sa), ema(x, la));
    let from = s.max(l);
    let v: Vec<f64> = (from..=x.len()).map(|t| es[t - 1] - el[t - 1]).collect();
    let sig = ema(&v, 2.0 / (g as f64 + 1.0));
    (1..=x.len()).map(|t| if t < from { None } else { let i = t - from; Some((v[i], sig[i], v[i] - sig[i])) }).collect()
}

use crate::ctx::*;
use crate::ensure;
use juno::utils::BufferedCandle;
use juno::{Candle, Interval, Timestamp};

const DAY: u64 = 86_400_000;
/// start of the bucket and of the next one, by an independent calendar
fn bucket(t: u64, b: u64) -> (u64, u64) {
    if b == Interval::WEEK_MS.0 {
        let o = 4 * DAY; // 1970-01-05 is a Monday
        let s = (t - o) / b * b + o;
        (s, s + b)
    } else if b == Interval::MONTH_MS.0 {
        let (mut y, mut m, mut s) = (1970u64, 0usize, 0u64);
        loop {
            let leap = (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
            let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m];
            let e = s + days * DAY;
            if t < e { return (s, e); }
            s = e;
            m += 1;
            if m == 12 { m = 0; y += 1 }
        }
    } else { (t / b * b, t / b * b + b) }
}
fn aggregate(time: u64, xs: &[Candle]) -> Candle {
    Candle {
        time: Timestamp(time),
        open: xs[0].open,
        high: xs.iter().fold(f64::MIN, |a, x| a.max(x.high)),
        low: xs.iter().fold(f64::MAX, |a, x| a.min(x.low)),
        close: xs[xs.len() - 1].close,
        volume: xs.iter().map(|x| x.volume).sum(),
    }
}
pub fn run(c: &mut Ctx) {
    c.rule = "random gapped candle streams, buckets of 2..7 input candles, weeks (of days, 12 h) and calendar months (of days) against whole-history grouping by an independent calendar; volumes dyadic so that sums are exact; streams that need two unfinished buckets at once are cut there; non-trivial: a gap inside an emitted bucket or a bucket emitted late".into();
    for i in 0..c.n(8000) {
        if c.done() { return; }
        let (iv, bv) = match i % 8 {
            0 => (DAY, Interval::WEEK_MS.0),
            1 => (DAY / 2, Interval::WEEK_MS.0),
            2 | 3 => (DAY, Interval::MONTH_MS.0),
            4 => (60_000, 60_000),
            _ => { let iv = c.pick(&[1, 1000, 60_000, 3_600_000]); (iv, iv * c.u(2, 7)) }
        };
        let none = i % 16 == 4;
        let n = c.u(1, 80) as usize;
        let gap = c.f(0.0, 0.9);
        let mut t = (5 * DAY + c.u(0, 20_000) * DAY) / iv * iv + c.u(0, 10) * iv;
        let mut xs = vec![];
        for _ in 0..n {
            let p = c.u(1, 1000) as f64 / 8.0;
            let (h, l) = (p + c.u(0, 80) as f64 / 8.0, p - c.u(0, 7) as f64 / 8.0);
            xs.push(Candle { time: Timestamp(t), open: l + c.u(0, 7) as f64 / 64.0, high: h, low: l, close: p, volume: c.u(0, 100) as f64 / 4.0 });
            t += iv;
            let burst = if c.b(0.2) { 40 } else { 3 };
            if c.b(gap) { t += iv * c.u(1, burst) }
        }
        let d: Vec<String> = xs.iter().map(|x| format!("{}:{}/{}/{}/{}/{}", x.time.0, x.open, x.high, x.low, x.close, x.volume)).collect();
        c.case(|| format!("interval {iv} buffer {bv} none {none}: {}", d.join(" ")), || {
            let mut b = BufferedCandle::new(Interval(iv), if none { None } else { Some(Interval(bv)) });
            let mut cur: Vec<Candle> = vec![];
            let mut interesting = false;
            for (k, x) in xs.iter().enumerate() {
                if none || iv == bv {
                    let g = b.buffer(x).map(|y| *y);
                    ensure!(g == Some(*x), "candle {k} did not pass through unchanged");
                    continue;
                }
                let (s, e) = bucket(x.time.0, bv);
                let late = !cur.is_empty() && bucket(cur[0].time.0, bv).0 != s;
                let last = x.time.0 + iv == e;
                if late && last { return Ok(interesting); } // two buckets would be due at once
                let exp = if late {
                    interesting = true;
                    let a = aggregate(bucket(cur[0].time.0, bv).0, &cur);
                    cur = vec![*x];
                    Some(a)
                } else {
                    cur.push(*x);
                    if last {
                        interesting |= cur.len() as u64 * iv != e - s;
                        let a = aggregate(s, &cur);
                        cur = vec![];
                        Some(a)
                    } else { None }
                };
                let g = b.buffer(x).map(|y| *y);
                ensure!(g == exp, "candle {k}: emitted {g:?}, expected {exp:?}");
            }
            Ok(interesting)
        });
    }
}

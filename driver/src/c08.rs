use crate::ctx::*;
use crate::ensure;
use crate::eng::*;
use juno::trading::{CloseReason, Position};
use juno::Advice;

pub fn run(c: &mut Ctx) {
    c.rule = "random backtests; every fill of every position is checked against the exchange rules (size filter, quote precision, taker fee at its precision, borrow limit, interest per started interval), and trading stops only when nothing tradable is left; non-trivial: at least two positions".into();
    for i in 0..c.n(20000) {
        if c.done() { return; }
        let k = random_case(c, i);
        c.case(|| k.desc(), || {
            let s = k.run();
            let (bu, qu, f, taker) = (k.bunit(), k.qunit(), &k.filters.size, k.fees.taker);
            let mut q = k.quote;
            for (n, p) in s.positions.iter().enumerate() {
                match p {
                    Position::Long(p) => {
                        let (o, z) = (&p.open_fills[0], &p.close_fills[0]);
                        ensure!(o.size > 0.0 && k.size_ok(q, o.price, o.size), "position {n}: size {} from capital {q} at {}", o.size, o.price);
                        ensure!(down_ok(o.price * o.size, o.quote, qu), "position {n}: opening quote {} of {} x {}", o.quote, o.price, o.size);
                        ensure!(half_ok(o.size * taker, o.fee, bu), "position {n}: opening fee {} of size {}", o.fee, o.size);
                        ensure!(size_ok(f, o.size - o.fee, z.size), "position {n}: closing size {} of base {}", z.size, o.size - o.fee);
                        ensure!(down_ok(z.price * z.size, z.quote, qu), "position {n}: closing quote {} of {} x {}", z.quote, z.price, z.size);
                        ensure!(half_ok(z.quote * taker, z.fee, qu), "position {n}: closing fee {} of quote {}", z.fee, z.quote);
                        q += p.profit();
                    }
                    Position::Short(p) => {
                        let (o, z) = (&p.open_fills[0], &p.close_fills[0]);
                        ensure!(p.borrowed <= k.borrow.limit * (1.0 + 1e-12), "position {n}: borrowed {} over the limit {}", p.borrowed, k.borrow.limit);
                        ensure!(o.size == p.borrowed, "position {n}: sold {} of borrowed {}", o.size, p.borrowed);
                        let m = (k.mm - 1) as f64;
                        let sl = k.slack(q);
                        let (lo, hi) = (down(f, (q - sl) / o.price), down(f, (q + sl) / o.price));
                        let e = 1e-9 * hi.max(f.step) * m;
                        ensure!(hi > 0.0 && (lo * m).min(k.borrow.limit) - e <= p.borrowed && p.borrowed <= (hi * m).min(k.borrow.limit) + e, "position {n}: borrowed {} against capital {q} at {}", p.borrowed, o.price);
                        ensure!(down_ok(o.price * o.size, o.quote, qu), "position {n}: opening quote {} of {} x {}", o.quote, o.price, o.size);
                        ensure!(half_ok(o.quote * taker, o.fee, qu), "position {n}: opening fee {} of quote {}", o.fee, o.quote);
                        let d = p.close_time.0 - p.open_time.0;
                        let ii = k.borrow.interest_interval;
                        let units = (d as u128 + ii as u128 - 1) / ii as u128;
                        let interest = z.size - z.fee - p.borrowed;
                        let due = p.borrowed * units as f64 * k.borrow.interest_rate;
                        ensure!(half_ok(due, interest, bu), "position {n}: interest {interest} for {units} started intervals on {}", p.borrowed);
                        ensure!(half_ok((p.borrowed + interest) * taker, z.fee, bu), "position {n}: closing fee {} on {}", z.fee, p.borrowed + interest);
                        ensure!(down_ok(z.price * z.size, z.quote, qu), "position {n}: closing quote {} of {} x {}", z.quote, z.price, z.size);
                        q += p.profit();
                    }
                }
            }
            // an enabled advice after the last position closed went untraded: nothing tradable was left
            let iv = k.iv().0;
            let (after, cancelled) = s.positions.last().map_or((0, false), |p| match p { Position::Long(p) => (p.close_time.0, p.close_reason == CloseReason::Cancelled), Position::Short(p) => (p.close_time.0, p.close_reason == CloseReason::Cancelled) });
            let adv = k.advices();
            for (j, x) in k.candles.iter().enumerate() {
                if x.time.0 + iv >= after && !cancelled {
                    if k.long && adv[j] == Advice::Long || k.short && adv[j] == Advice::Short {
                        ensure!(k.tradable(q, x.close) != Some(true), "candle {j}: capital {q} at {} was tradable but not traded", x.close);
                        break;
                    }
                }
            }
            Ok(s.positions.len() >= 2)
        });
    }
}

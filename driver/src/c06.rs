use crate::ctx::*;
use crate::ensure;
use crate::eng::*;
use juno::statistics::get_profit;
use juno::trading::Position;

pub fn run(c: &mut Ctx) {
    c.rule = "random backtests (all strategies, stop losses, take profits, fees, filters, borrow terms); the capital is replayed from the recorded fills: every position is paid for out of the capital its predecessors left and its profit is the change it caused; non-trivial: at least two positions".into();
    for i in 0..c.n(20000) {
        if c.done() { return; }
        let k = random_case(c, i);
        c.case(|| k.desc(), || {
            let s = k.run();
            ensure!(s.quote == k.quote, "summary quote {} of {}", s.quote, k.quote);
            let mut q = k.quote;
            let tol = |q: f64| 1e-9 * k.quote.max(q.abs()) + 1e-12;
            for (n, p) in s.positions.iter().enumerate() {
                let q0 = q;
                match p {
                    Position::Long(p) => {
                        let (o, z) = (&p.open_fills[0], &p.close_fills[0]);
                        ensure!(o.quote <= q + tol(q), "position {n} costs {} of {q}", o.quote);
                        ensure!(k.size_ok(q, o.price, o.size), "position {n}: size {} from capital {q} at {}", o.size, o.price);
                        ensure!(z.size <= o.size - o.fee + tol(o.size), "position {n} sells {} of {}", z.size, o.size - o.fee);
                        q = q - o.quote + z.quote - z.fee;
                        ensure!((p.cost() - o.quote).abs() <= tol(q0) && (p.gain() - (z.quote - z.fee)).abs() <= tol(q0), "position {n}: cost {} gain {}", p.cost(), p.gain());
                        ensure!((p.profit() - (q - q0)).abs() <= tol(q0), "position {n}: profit {} but the capital changed by {}", p.profit(), q - q0);
                    }
                    Position::Short(p) => {
                        let (o, z) = (&p.open_fills[0], &p.close_fills[0]);
                        ensure!((p.collateral - q).abs() <= tol(q), "position {n}: collateral {} of {q}", p.collateral);
                        q = q + o.quote - o.fee - z.quote;
                        ensure!((p.cost() - p.collateral).abs() <= tol(q0), "position {n}: cost {}", p.cost());
                        ensure!((p.profit() - (q - q0)).abs() <= tol(q0) + 1e-9 * o.quote, "position {n}: profit {} but the capital changed by {}", p.profit(), q - q0);
                    }
                }
            }
            let g = get_profit(&s);
            ensure!((g - (q - k.quote)).abs() <= 1e-9 * (1.0 + k.quote + q.abs()) * (1.0 + s.positions.len() as f64), "reported profit {g}, capital changed by {}", q - k.quote);
            Ok(s.positions.len() >= 2)
        });
    }
}

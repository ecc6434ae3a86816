use crate::ctx::*;
use crate::ensure;
use crate::eng::*;
use juno::trading::{CloseReason, Position};
use juno::Advice;

pub fn run(c: &mut Ctx) {
    c.rule = "random backtests replayed candle by candle: which candles open a position, which close it and why, from fresh strategy, stop loss and take profit objects and the precedence rule; non-trivial: at least two positions".into();
    for i in 0..c.n(20000) {
        if c.done() { return; }
        let k = random_case(c, i);
        c.case(|| k.desc(), || {
            let s = k.run();
            let iv = k.iv().0;
            if let (Some(a), Some(b)) = (k.candles.first(), k.candles.last()) {
                ensure!(s.start == a.time && s.end.0 == b.time.0 + iv, "summary window {} - {}", s.start.0, s.end.0);
            }
            let adv = k.advices();
            let mut sl = k.params.stop_loss.construct();
            let mut tp = k.params.take_profit.construct();
            let mut next = 0; // next recorded position
            let mut open: Option<bool> = None; // is it long
            let mut q = k.quote;
            let mut stopped = false;
            for (j, x) in k.candles.iter().enumerate() {
                sl.update(x);
                tp.update(x);
                let t = x.time.0 + iv;
                if let Some(long) = open {
                    let why = if long {
                        if adv[j] == Advice::Short || adv[j] == Advice::Liquidate { Some(CloseReason::Strategy) } else if sl.upside_hit() { Some(CloseReason::StopLoss) } else if tp.upside_hit() { Some(CloseReason::TakeProfit) } else { None }
                    } else if adv[j] == Advice::Long || adv[j] == Advice::Liquidate { Some(CloseReason::Strategy) } else if sl.downside_hit() { Some(CloseReason::StopLoss) } else if tp.downside_hit() { Some(CloseReason::TakeProfit) } else { None };
                    let last = j + 1 == k.candles.len();
                    let (ct, cr, cp) = match &s.positions[next] {
                        Position::Long(p) => (p.close_time.0, p.close_reason, p.close_fills[0].price),
                        Position::Short(p) => (p.close_time.0, p.close_reason, p.close_fills[0].price),
                    };
                    let why = why.or(if last { Some(CloseReason::Cancelled) } else { None });
                    ensure!(why.is_none() == (ct != t), "candle {j}: position {next} closed at {ct} as {cr:?}, now {t} expecting {why:?}");
                    if let Some(w) = why {
                        ensure!(cr == w, "candle {j}: position {next} closed as {cr:?}, expected {w:?}");
                        ensure!(cp == x.close, "candle {j}: closed at price {cp}, the close is {}", x.close);
                        q += match &s.positions[next] { Position::Long(p) => p.profit(), Position::Short(p) => p.profit() };
                        open = None;
                        next += 1;
                        if w == CloseReason::Cancelled { break; }
                    }
                }
                if open.is_none() {
                    let want = if adv[j] == Advice::Long && k.long { Some(true) } else if adv[j] == Advice::Short && k.short { Some(false) } else { None };
                    let got = s.positions.get(next).and_then(|p| match p {
                        Position::Long(p) => if p.open_time.0 == t { Some((true, p.open_fills[0].price)) } else { None },
                        Position::Short(p) => if p.open_time.0 == t { Some((false, p.open_fills[0].price)) } else { None },
                    });
                    match (want, got) {
                        (None, None) => {}
                        (Some(w), Some((g, pr))) => {
                            ensure!(w == g, "candle {j}: opened {}, advised {:?}", if g { "long" } else { "short" }, adv[j]);
                            ensure!(pr == x.close, "candle {j}: opened at price {pr}, the close is {}", x.close);
                            open = Some(g);
                            // opened on the last candle: closed there as cancelled
                            if j + 1 == k.candles.len() {
                                let (ct, cr) = match &s.positions[next] { Position::Long(p) => (p.close_time.0, p.close_reason), Position::Short(p) => (p.close_time.0, p.close_reason) };
                                ensure!(ct == t && cr == CloseReason::Cancelled, "position opened on the last candle closed at {ct} as {cr:?}");
                                next += 1;
                            }
                        }
                        (None, Some(_)) => return Err(format!("candle {j}: a position opened without an enabled changed advice ({:?})", adv[j])),
                        (Some(_), None) => {
                            ensure!(k.tradable(q, x.close) != Some(true), "candle {j}: advice {:?} did not open a position, capital {q} price {}", adv[j], x.close);
                            stopped = true;
                        }
                    }
                    if stopped { break; }
                    sl.clear(x);
                    tp.clear(x);
                }
            }
            ensure!(next == s.positions.len(), "{} positions recorded, {next} accounted for", s.positions.len());
            Ok(s.positions.len() >= 2)
        });
    }
}

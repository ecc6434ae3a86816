use crate::c18::{nodes, sl_kinds, strategy_kinds, tp_kinds};
use crate::ctx::*;

use juno::genetics::Chromosome;
use juno::strategies::StrategyMeta;
use juno::trading::{TradingParams, TradingParamsContext};
use juno::{Candle, Interval, Timestamp};
use rand::prelude::*;
use serde::Serialize;
use serde_json::{json, Value};

fn js<T: Serialize>(x: &T) -> Value { serde_json::to_value(x).unwrap() }
// ---- what a value must be, by its name and place ----
fn int(v: &Value, k: &str, lo: u64, hi: u64) -> Result<u64, String> {
    match v[k].as_u64() { Some(n) if lo <= n && n <= hi => Ok(n), _ => Err(format!("{k} = {} outside {lo}..={hi}", v[k])) }
}
fn num(v: &Value, k: &str, lo: f64, hi: f64) -> Result<f64, String> {
    match v[k].as_f64() { Some(n) if lo <= n && n <= hi => Ok(n), _ => Err(format!("{k} = {} outside {lo}..={hi}", v[k])) }
}
fn pos(v: &Value, k: &str, hi: f64) -> Result<f64, String> { let n = num(v, k, 0.0, hi)?; if n > 0.0 { Ok(n) } else { Err(format!("{k} = 0")) } }
const MONDAY: u64 = 345_600_000 + 2600 * 604_800_000;
const MOST: u64 = 1 << 20;
fn ma(v: &Value) -> Result<u64, String> {
    if v["type"] == "Alma" {
        num(v, "offset", 0.0, 1.0)?;
        if !v["sigma"].is_null() { int(v, "sigma", 1, u32::MAX as u64)?; }
    }
    if v["type"] == "Ema" && !v["smoothing"].is_null() { pos(v, "smoothing", 1.0)?; }
    int(v, "period", 1, MOST)
}
fn mas(v: &Value) -> Result<(), String> {
    let p: Vec<u64> = v["mas"].as_array().ok_or("mas")?.iter().map(ma).collect::<Result<_, _>>()?;
    if p.windows(2).all(|w| w[0] < w[1]) { Ok(()) } else { Err(format!("periods {p:?} do not increase")) }
}
fn ordered(v: &Value, k: &str) -> Result<(), String> {
    let (a, b) = (v[k][0].as_f64().ok_or(k)?, v[k][1].as_f64().ok_or(k)?);
    if 0.0 < a && a < b { Ok(()) } else { Err(format!("{k} = {} not positive and increasing", v[k])) }
}
fn strategy(v: &Value) -> Result<(), String> {
    let bands = |v: &Value| num(v, "up_threshold", 50.0, 100.0).and(num(v, "down_threshold", 0.0, 50.0)).map(|_| ());
    match v["type"].as_str().unwrap_or("") {
        "DoubleMA" | "TripleMA" => mas(v),
        "DoubleMA2" => { mas(v)?; num(v, "neg_threshold", -1.0, 0.0)?; num(v, "pos_threshold", 0.0, 1.0).map(|_| ()) }
        "DoubleMAStoch" => { mas(&v["double_ma"])?; strategy(&{ let mut s = v["stoch"].clone(); s["type"] = "Stoch".into(); s }) }
        "FourWeekRule" => { int(v, "period", 1, MOST)?; ma(&v["ma"]).map(|_| ()) }
        "Macd" => { ordered(v, "periods")?; int(v, "signal_period", 1, MOST).map(|_| ()) }
        "SingleMA" => ma(&v["ma"]).map(|_| ()),
        "Rsi" => { int(v, "period", 1, MOST)?; bands(v) }
        "Stoch" => { for k in ["k_period", "k_sma_period", "d_sma_period"] { int(v, k, 1, MOST)?; } bands(v) }
        "Sig" => { int(v, "persistence", 0, 1_000_000)?; strategy(&v["sig"]) }
        "SigOsc" => { int(v, "persistence", 0, 1_000_000)?; strategy(&v["sig"])?; strategy(&v["osc"]) }
        t => Err(format!("strategy {t}")),
    }
}
fn valid(v: &Value, intervals: &[u64]) -> Result<(), String> {
    strategy(&v["strategy"])?;
    let i = interval(&v["trader"]["interval"]);
    if !intervals.contains(&i) { return Err(format!("interval {i} is not one of the choices {intervals:?}")); }
    for (side, most) in [("stop_loss", 1.0), ("take_profit", 10.0)] {
        let s = &v[side];
        let both = |s: &Value| pos(s, "up_threshold", most).and(pos(s, "down_threshold", most)).map(|_| ());
        match s["type"].as_str().unwrap_or("") {
            "Basic" | "Trailing" => both(s)?,
            "BasicPlusTrailing" => both(&s["basic"]).and(both(&s["trailing"]))?,
            "Legacy" => { num(s, "threshold", 0.0, most)?; }
            "Trending" => { ordered(s, "up_thresholds")?; ordered(s, "down_thresholds")?; int(s, "period", 1, MOST)?; }
            "Noop" => {}
            t => return Err(format!("{side} {t}")),
        }
    }
    Ok(())
}
fn interval(v: &Value) -> u64 { v.as_u64().or_else(|| serde_json::from_value::<Interval>(v.clone()).ok().map(|i| i.0)).unwrap_or(0) }
/// everything the context fixes: (pointer into a value, the fixed value or the name of the variant)
fn fixed(c: &Value, at: &str, out: &mut Vec<(String, Value)>) {
    match c {
        Value::Object(m) => for (k, v) in m {
            if at == "/trader" { continue; }
            if k == "type" { if v != "None" { out.push((format!("{at}/type"), v.clone())) } }
            else if v.is_object() && k != "ma" { fixed(v, &format!("{at}/{k}"), out) }
            else if !v.is_null() { out.push((format!("{at}/{k}"), v.clone())) }
        },
        _ => {}
    }
}
fn holds(v: &Value, fx: &[(String, Value)]) -> Result<(), String> {
    for (p, w) in fx {
        let g = v.pointer(p).ok_or_else(|| format!("no {p} in {v}"))?;
        if g != w && !(p.ends_with("buffer_interval") && interval(g) == interval(w)) { return Err(format!("{p} is {g}, the context fixes it to {w}")); }
    }
    Ok(())
}
fn usable(p: &TradingParams, r: &mut StdRng) {
    let mut s = p.strategy.construct(&StrategyMeta { interval: p.trader.interval });
    let (mut l, mut t) = (p.stop_loss.construct(), p.take_profit.construct());
    let mut x: f64 = 100.0;
    for k in 0..8u64 {
        x *= r.gen_range(0.9..1.1);
        let c = Candle { time: Timestamp(MONDAY + p.trader.interval.0 * k), open: x, high: x * 1.01, low: x * 0.99, close: x, volume: 1.0 };
        s.update(&c);
        let _ = (s.advice(), s.maturity(), s.mature());
        if k == 3 { l.clear(&c); t.clear(&c); } else if k > 3 {
            l.update(&c);
            t.update(&c);
            let _ = (l.upside_hit(), l.downside_hit(), t.upside_hit(), t.downside_hit());
        }
    }
}
pub fn run(c: &mut Ctx) {
    c.rule = "random contexts for every strategy, stop loss and take profit (variants and fields fixed or left open), populations evolved by random crossover and mutation, every value checked, constructed and fed candles; non-trivial: something is fixed and something is not".into();
    let (mut st, mut sl, mut tp) = (strategy_kinds(), sl_kinds(), tp_kinds());
    st.push(json!({"type": "None"}));
    st.push(json!({"type": "Sig", "sig": {"type": "None"}}));
    st.push(json!({"type": "SigOsc", "sig": {"type": "None"}, "osc": {"type": "None"}}));
    sl.push(json!({"type": "None"}));
    tp.push(json!({"type": "None"}));
    for i in 0..c.n(1500) {
        if c.done() { return; }
        let seed = c.u(0, 1 << 40);
        let (a, b, d) = (i % st.len(), (i / 2) % sl.len(), (i / 3) % tp.len());
        c.case(|| format!("strategy {} stop loss {} take profit {} seed {seed}", st[a], sl[b], tp[d]), || {
            let mut r = StdRng::seed_from_u64(seed);
            let all = [1u64, 1000, 60_000, 300_000, 3_600_000, 86_400_000, 604_800_000];
            let n = r.gen_range(1..=all.len());
            let choices: Vec<u64> = all.choose_multiple(&mut r, n).copied().collect();
            let open = json!({"strategy": st[a], "trader": {"intervals": choices}, "stop_loss": sl[b], "take_profit": tp[d]});
            // fix some fields to values another run drew
            let mut cj = open.clone();
            let how = *[0.0, 0.3, 0.7, 1.0].choose(&mut r).unwrap();
            let drawn = js(&TradingParams::generate(&mut r, &serde_json::from_value(open.clone()).map_err(|e| e.to_string())?));
            let mut ns = vec![];
            nodes(&drawn, &drawn, "", &mut ns);
            let mut free = false;
            for n in ns.iter().filter(|n| drawn.pointer(n).unwrap().get("type").is_none() && !n.starts_with("/trader") || n.ends_with("/ma")) {
                // not below a variant the context leaves open
                let (par, key) = n.rsplit_once('/').unwrap();
                let mut it = (0..=n.len()).filter(|k| *k == n.len() || n.as_bytes()[*k] == b'/').map(|k| &n[..k]);
                if it.any(|q| cj.pointer(q).map_or(false, |x| x["type"] == "None")) || !r.gen_bool(how) { free = true; continue; }
                let v = if key == "buffer_interval" { json!((choices.iter().max().unwrap() * r.gen_range(1..3u64)).min(604_800_000)) } else { drawn.pointer(n).unwrap().clone() };
                if let Some(Value::Object(m)) = cj.pointer_mut(par) { m.insert(key.into(), v); }
            }
            let ctx: TradingParamsContext = serde_json::from_value(cj.clone()).map_err(|e| format!("{cj}: {e}"))?;
            let mut fx = vec![];
            fixed(&js(&ctx), "", &mut fx);
            let look = |p: &TradingParams, what: &str, r: &mut StdRng| -> Result<(), String> {
                let v = js(p);
                valid(&v, &choices).and_then(|_| holds(&v, &fx)).map_err(|e| format!("{what} under {cj}: {e} in {v}"))?;
                std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| usable(p, r))).map_err(|e| format!("{what} under {cj}: {v} cannot be constructed or fed candles: {}", e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
            };
            let mut ps: Vec<TradingParams> = vec![];
            for _ in 0..4 {
                let p = TradingParams::generate(&mut r, &ctx);
                look(&p, "generated", &mut r)?;
                ps.push(p);
            }
            for _ in 0..12 {
                let (x, y) = (r.gen_range(0..4), r.gen_range(0..4));
                let k = r.gen_range(0..TradingParams::len());
                if x != y {
                    let (mut p, mut q) = (ps[x].clone(), ps[y].clone());
                    p.cross(&mut q, k);
                    look(&p, &format!("crossed gene {k}"), &mut r)?;
                    look(&q, &format!("crossed gene {k}"), &mut r)?;
                    ps[x] = p;
                    ps[y] = q;
                } else {
                    for k in [k, r.gen_range(0..TradingParams::len()), 0] {
                        ps[x].mutate(&mut r, k, &ctx);
                        look(&ps[x], &format!("mutated gene {k}"), &mut r)?;
                    }
                }
            }
            Ok(!fx.is_empty() && free)
        });
    }
}

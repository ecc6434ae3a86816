use crate::ctx::*;
use crate::ensure;
use crate::ga::*;
use juno::genetics::{crossover::*, mutation::*, Chromosome};
use juno::trading::TradingParams;
use juno::{stop_loss::StopLossParams, strategies::StrategyParams, take_profit::TakeProfitParams};
use rand::prelude::*;
use serde::Serialize;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};

/// genes of a value: leaves and variant nodes (an object with a "type"), as JSON pointers
pub fn nodes(a: &Value, b: &Value, at: &str, out: &mut Vec<String>) {
    let key = at.rsplit('/').next().unwrap_or("");
    match (a, b) {
        // averages are drawn whole, they are plain fields
        (Value::Object(x), Value::Object(y)) if key != "ma" && key != "mas" => {
            if x.contains_key("type") {
                out.push(at.to_string());
                if x["type"] != y["type"] { return; }
            }
            for (k, v) in x { if k != "type" { nodes(v, &y[k], &format!("{at}/{k}"), out) } }
        }
        _ => out.push(at.to_string()),
    }
}
fn js<T: Serialize>(x: &T) -> Value { serde_json::to_value(x).unwrap() }
fn swapped(a: &Value, b: &Value, n: &str) -> (Value, Value) {
    let (mut x, mut y) = (a.clone(), b.clone());
    let (p, q) = (a.pointer(n).unwrap().clone(), b.pointer(n).unwrap().clone());
    *x.pointer_mut(n).unwrap() = q;
    *y.pointer_mut(n).unwrap() = p;
    (x, y)
}
const NONE: &str = "-";
/// `make` draws values of one fixed shape (all variants fixed); `drawn` may draw any
fn shape<T: Chromosome + Serialize>(make: &mut dyn FnMut() -> T, rng: &mut StdRng, ctx: &T::Context, trials: usize) -> Result<usize, String> {
    let mut cand: Vec<Option<BTreeSet<String>>> = vec![None; T::len()];
    let mut all: Option<Vec<String>> = None;
    let mut varied: BTreeSet<String> = BTreeSet::new();
    for _ in 0..trials {
        let (a, b) = (make(), make());
        let (ja, jb) = (js(&a), js(&b));
        let mut ns = vec![];
        nodes(&ja, &jb, "", &mut ns);
        if let Some(v) = &all { if *v != ns { continue; } } else { all = Some(ns.clone()); }
        for n in &ns { if ja.pointer(n) != jb.pointer(n) { varied.insert(n.clone()); } }
        for i in 0..T::len() {
            let (mut x, mut y) = (a.clone(), b.clone());
            x.cross(&mut y, i);
            let (jx, jy) = (js(&x), js(&y));
            let mut ok: BTreeSet<String> = ns.iter().filter(|n| swapped(&ja, &jb, n) == (jx.clone(), jy.clone())).cloned().collect();
            if jx == ja && jy == jb { ok.insert(NONE.into()); }
            if ok.is_empty() { return Err(format!("crossing gene {i} of {ja} and {jb} gives {jx} and {jy}: no single gene was exchanged")); }
            x.cross(&mut y, i);
            if js(&x) != ja || js(&y) != jb { return Err(format!("crossing gene {i} of {ja} and {jb} twice gives {} and {}", js(&x), js(&y))); }
            let mut m = a.clone();
            m.mutate(rng, i, ctx);
            let jm = js(&m);
            let mut okm: BTreeSet<String> = ns.iter().filter(|n| {
                let mut z = jm.clone();
                match z.pointer_mut(n) { Some(p) => { *p = ja.pointer(n).unwrap().clone(); z == ja } None => false }
            }).cloned().collect();
            if jm == ja { okm.insert(NONE.into()); }
            if okm.is_empty() { return Err(format!("mutating gene {i} of {ja} gives {jm}: more than one gene changed")); }
            let both: BTreeSet<String> = ok.intersection(&okm).cloned().collect();
            let c = match cand[i].take() { None => both, Some(c) => c.intersection(&both).cloned().collect() };
            if c.is_empty() { return Err(format!("gene {i} of {ja}: crossing and mutating do not address one and the same gene")); }
            cand[i] = Some(c);
        }
    }
    let all = all.unwrap();
    for n in &varied {
        let k = cand.iter().filter(|c| c.as_ref().map_or(false, |c| c.contains(n))).count();
        if k == 0 { return Err(format!("no gene index below {} addresses {n}", T::len())); }
        let own = cand.iter().filter(|c| c.as_ref().map_or(false, |c| c.len() == 1 && c.contains(n))).count();
        if own > 1 { return Err(format!("{own} gene indices address {n}")); }
    }
    if T::len() < all.len() { return Err(format!("{} genes for {} fields", T::len(), all.len())); }
    Ok(all.len())
}
pub fn strategy_kinds() -> Vec<Value> {
    let sig = ["DoubleMA", "DoubleMA2", "DoubleMAStoch", "FourWeekRule", "Macd", "SingleMA", "TripleMA"];
    let mk = |t: &str| if t == "DoubleMAStoch" { serde_json::json!({"type": t, "double_ma": {}, "stoch": {}}) } else { serde_json::json!({"type": t}) };
    let mut v: Vec<Value> = sig.iter().map(|t| mk(t)).collect();
    for s in sig {
        v.push(serde_json::json!({"type": "Sig", "sig": mk(s)}));
        for o in ["Rsi", "Stoch"] { v.push(serde_json::json!({"type": "SigOsc", "sig": mk(s), "osc": {"type": o}})); }
    }
    v
}
pub fn sl_kinds() -> Vec<Value> {
    ["Basic", "Trailing", "Legacy", "Noop", "BasicPlusTrailing"].iter().map(|t| if *t == "BasicPlusTrailing" { serde_json::json!({"type": t, "basic": {}, "trailing": {}}) } else { serde_json::json!({"type": t}) }).collect()
}
pub fn tp_kinds() -> Vec<Value> { ["Basic", "Legacy", "Noop", "Trending"].iter().map(|t| serde_json::json!({"type": t})).collect() }

fn real<T: Chromosome + Serialize>(c: &mut Ctx, name: &str, kinds: &[Value]) where T::Context: serde::de::DeserializeOwned {
    let mut most = BTreeMap::new();
    for (j, k) in kinds.iter().enumerate() {
        let seed = c.u(0, 1 << 40);
        let trials = if c.thorough { 100 } else { 10 };
        let mut n = 0;
        c.case(|| format!("{name} {k} seed {seed}"), || {
            let ctx: T::Context = serde_json::from_value(k.clone()).map_err(|e| e.to_string())?;
            let mut r = StdRng::seed_from_u64(seed);
            let mut r2 = StdRng::seed_from_u64(seed + 1);
            n = shape::<T>(&mut || T::generate(&mut r, &ctx), &mut r2, &ctx, trials)?;
            Ok(true)
        });
        most.insert(j, n);
    }
    let m = *most.values().max().unwrap_or(&0);
    if c.only.is_none() && c.failure.is_none() {
        c.case(|| format!("{name}: length against the largest variant"), || { ensure!(T::len() == m, "length {} but the largest variant has {m} genes", T::len()); Ok(true) });
    }
    // values of different variants: a gene of the variant they do not share is left alone
    for _ in 0..c.n(60) {
        if c.done() { return; }
        let seed = c.u(0, 1 << 40);
        c.case(|| format!("{name} mixed variants seed {seed}"), || {
            let ctx: T::Context = serde_json::from_value(serde_json::json!({"type": "None"})).map_err(|e| e.to_string())?;
            let mut r = StdRng::seed_from_u64(seed);
            let (a, b) = (T::generate(&mut r, &ctx), T::generate(&mut r, &ctx));
            mixed(&a, &b)
        });
    }
}
fn mixed<T: Chromosome + Serialize>(a: &T, b: &T) -> Out {
    let (ja, jb) = (js(a), js(b));
    let mut ns = vec![];
    nodes(&ja, &jb, "", &mut ns);
    let mut hit = BTreeSet::new();
    for i in 0..T::len() {
        let (mut x, mut y) = (a.clone(), b.clone());
        x.cross(&mut y, i);
        let (jx, jy) = (js(&x), js(&y));
        let on: Vec<&String> = ns.iter().filter(|n| swapped(&ja, &jb, n) == (jx.clone(), jy.clone())).collect();
        ensure!(!on.is_empty() || (jx == ja && jy == jb), "crossing gene {i} of {ja} and {jb} gives {jx} and {jy}");
        if jx != ja { if let Some(n) = on.last() { ensure!(hit.insert(n.to_string()) || on.len() > 1, "two gene indices exchange {n}"); } }
        x.cross(&mut y, i);
        ensure!(js(&x) == ja && js(&y) == jb, "crossing gene {i} twice changes {ja} and {jb}");
    }
    Ok(ja != jb)
}
pub fn run(c: &mut Ctx) {
    c.rule = "every variant of the real strategy, stop loss, take profit and trading parameters and nested custom chromosomes: each index exchanges and redraws one gene only, both the same, all genes addressed; uniform operators with probability 0, 1 and between; non-trivial: values differ".into();
    real::<StrategyParams>(c, "StrategyParams", &strategy_kinds());
    real::<StopLossParams>(c, "StopLossParams", &sl_kinds());
    real::<TakeProfitParams>(c, "TakeProfitParams", &tp_kinds());
    real::<AnyParams>(c, "AnyParams", &[serde_json::json!({"type": "Leaf"}), serde_json::json!({"type": "Pair", "one": {}, "two": {}}), serde_json::json!({"type": "Tiny"})]);
    let (st, sl, tp) = (strategy_kinds(), sl_kinds(), tp_kinds());
    for i in 0..c.n(60) {
        if c.done() { return; }
        let k = serde_json::json!({"strategy": st[i % st.len()], "trader": {"intervals": [1, 60_000, 3_600_000, 86_400_000, 604_800_000]}, "stop_loss": sl[i % sl.len()], "take_profit": tp[i % tp.len()]});
        let seed = c.u(0, 1 << 40);
        c.case(|| format!("TradingParams {k} seed {seed}"), || {
            ensure!(TradingParams::len() == StrategyParams::len() + 1 + StopLossParams::len() + TakeProfitParams::len(), "length {}", TradingParams::len());
            let ctx = serde_json::from_value(k.clone()).map_err(|e| e.to_string())?;
            let mut r = StdRng::seed_from_u64(seed);
            shape::<TradingParams>(&mut || TradingParams::generate(&mut r, &ctx), &mut StdRng::seed_from_u64(seed + 1), &ctx, 6)?;
            Ok(true)
        });
        let any = serde_json::json!({"strategy": {"type": "None"}, "trader": {"intervals": [1, 60_000, 3_600_000]}, "stop_loss": {"type": "None"}, "take_profit": {"type": "None"}});
        c.case(|| format!("TradingParams mixed seed {seed}"), || {
            let ctx = serde_json::from_value(any.clone()).map_err(|e| e.to_string())?;
            let mut r = StdRng::seed_from_u64(seed);
            let (a, b) = (TradingParams::generate(&mut r, &ctx), TradingParams::generate(&mut r, &ctx));
            mixed(&a, &b)
        });
    }
    // nested custom chromosomes, all leaves distinct
    for _ in 0..c.n(40) {
        if c.done() { return; }
        let seed = c.u(0, 1 << 40);
        c.case(|| format!("DeepParams seed {seed}"), || {
            ensure!(LeafParams::len() == 3 && PairParams::len() == 8 && AnyParams::len() == 9 && DeepParams::len() == 28, "lengths {} {} {} {}", LeafParams::len(), PairParams::len(), AnyParams::len(), DeepParams::len());
            let ctx = Default::default();
            let mut r = StdRng::seed_from_u64(seed);
            let (a, b) = (DeepParams::generate(&mut r, &ctx), DeepParams::generate(&mut r, &ctx));
            mixed(&a, &b)
        });
    }
    // uniform operators
    for i in 0..c.n(400) {
        if c.done() { return; }
        let p = [0.0f32, 1.0, 0.5, 0.1, 0.9][i % 5];
        let seed = c.u(0, 1 << 40);
        c.case(|| format!("uniform operators, probability {p}, seed {seed}"), || {
            let mut r = StdRng::seed_from_u64(seed);
            let (mut hits, mut muts, n) = (0, 0, 50);
            for _ in 0..n {
                let (a, b) = (Row((0..8).collect()), Row((100..108).collect()));
                let (mut x, mut y) = (a.clone(), b.clone());
                UniformCrossover::new(p).cross(&mut r, &mut x, &mut y);
                for k in 0..ROW {
                    ensure!((x.0[k], y.0[k]) == (a.0[k], b.0[k]) || (x.0[k], y.0[k]) == (b.0[k], a.0[k]), "position {k}: {} and {}", x.0[k], y.0[k]);
                    hits += (x.0[k] != a.0[k]) as u64;
                }
                let mut m = a.clone();
                UniformMutation::new(p).mutate(&mut r, &mut m, &());
                muts += m.0.iter().zip(&a.0).filter(|(x, y)| x != y).count() as u64;
            }
            let t = (n * ROW) as f64;
            for (w, h) in [("exchanged", hits), ("mutated", muts)] {
                let sd = (p as f64 * (1.0 - p as f64) * t).sqrt();
                ensure!((h as f64 - p as f64 * t).abs() <= 6.0 * sd, "{h} of {t} genes {w} at probability {p}");
            }
            Ok(p > 0.0)
        });
    }
}

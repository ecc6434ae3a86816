use crate::c11::random_ma;
use crate::ctx::*;
use crate::ensure;
use crate::gen::*;
use juno::indicators::{self, MAParams, MA};
use juno::strategies::*;
use juno::utils::{BufferedCandle, MidTrendPolicy};
use juno::{Advice, Candle, Interval};
use Advice::{Liquidate, Long, Short};

/// What a rule says at a candle: the advice after it (given the advice before), or None before maturity.
pub trait Rule {
    fn step(&mut self, c: &Candle) -> (bool, Advice); // (indicators mature, advice in force)
    fn maturity(&self) -> u32;
}
type M = Box<dyn MA>;
struct One { ma: M, prev: Option<f64>, a: Advice }
impl Rule for One {
    fn maturity(&self) -> u32 { self.ma.maturity() + 1 }
    fn step(&mut self, c: &Candle) -> (bool, Advice) {
        self.ma.update(c.close);
        let v = self.ma.value();
        let ripe = self.prev.is_some();
        if let Some(p) = self.prev {
            if c.close > v && v > p { self.a = Long } else if c.close < v && v < p { self.a = Short }
        }
        if self.ma.mature() { self.prev = Some(v) }
        (ripe, self.a)
    }
}
struct Two { s: M, l: M, a: Advice, th: Option<(f64, f64)> }
impl Rule for Two {
    fn maturity(&self) -> u32 { self.s.maturity().max(self.l.maturity()) }
    fn step(&mut self, c: &Candle) -> (bool, Advice) {
        self.s.update(c.close);
        self.l.update(c.close);
        let ripe = self.s.mature() && self.l.mature();
        if ripe {
            let (s, l) = (self.s.value(), self.l.value());
            let (up, down) = match self.th {
                None => (s > l, s < l),
                // both bounds in percent of the middle
                Some((neg, pos)) => { let d = 100.0 * (s - l) / ((s + l) / 2.0); (d > pos, d < neg) }
            };
            if up { self.a = Long } else if down { self.a = Short }
        }
        (ripe, self.a)
    }
}
struct Three { s: M, m: M, l: M, a: Advice }
impl Rule for Three {
    fn maturity(&self) -> u32 { self.s.maturity().max(self.m.maturity()).max(self.l.maturity()) }
    fn step(&mut self, c: &Candle) -> (bool, Advice) {
        for x in [&mut self.s, &mut self.m, &mut self.l] { x.update(c.close) }
        let ripe = self.s.mature() && self.m.mature() && self.l.mature();
        if ripe {
            let (s, m, l) = (self.s.value(), self.m.value(), self.l.value());
            if s > m && m > l { self.a = Long }
            else if s < m && m < l { self.a = Short }
            else if self.a == Short && s > m.max(l) || self.a == Long && s < m.min(l) { self.a = Liquidate }
        }
        (ripe, self.a)
    }
}
struct Weeks { ma: M, n: usize, seen: Vec<f64>, a: Advice }
impl Rule for Weeks {
    fn maturity(&self) -> u32 { (self.n as u32 + 1).max(self.ma.maturity()) }
    fn step(&mut self, c: &Candle) -> (bool, Advice) {
        self.ma.update(c.close);
        let ripe = self.ma.mature() && self.seen.len() >= self.n;
        if ripe {
            let w = &self.seen[self.seen.len() - self.n..];
            let (lo, hi) = w.iter().fold((f64::MAX, f64::MIN), |a, &b| (a.0.min(b), a.1.max(b)));
            let v = self.ma.value();
            if c.close >= hi { self.a = Long }
            else if c.close <= lo { self.a = Short }
            else if self.a == Long && c.close <= v || self.a == Short && c.close >= v { self.a = Liquidate }
        }
        self.seen.push(c.close);
        (ripe, self.a)
    }
}
struct Conv { m: indicators::Macd }
impl Rule for Conv {
    fn maturity(&self) -> u32 { self.m.maturity() }
    fn step(&mut self, c: &Candle) -> (bool, Advice) {
        self.m.update(c.close);
        let ripe = self.m.mature();
        (ripe, if !ripe { Advice::None } else if self.m.value > self.m.signal { Long } else { Short })
    }
}
struct TwoStoch { two: Two, st: indicators::Stoch, up: f64, down: f64, a: Advice }
impl Rule for TwoStoch {
    fn maturity(&self) -> u32 { self.two.maturity().max(self.st.maturity()) }
    fn step(&mut self, c: &Candle) -> (bool, Advice) {
        let (r, t) = self.two.step(c);
        self.st.update(c.high, c.low, c.close);
        let ripe = r && self.st.mature();
        if ripe {
            let k = self.st.k;
            if self.a == Long && (t == Short || k >= self.up) || self.a == Short && (t == Long || k < self.down) { self.a = Liquidate }
            if self.a != Long && self.a != Short {
                if t == Long && k < 50.0 { self.a = Long } else if t == Short && k >= 50.0 { self.a = Short }
            }
        }
        (ripe, self.a)
    }
}
pub fn signal_rule(p: &SignalParams) -> Box<dyn Rule> {
    let two = |p: &DoubleMAParams| Two { s: p.mas.0.construct(), l: p.mas.1.construct(), a: Advice::None, th: None };
    match p {
        SignalParams::SingleMA(p) => Box::new(One { ma: p.ma.construct(), prev: None, a: Advice::None }),
        SignalParams::DoubleMA(p) => Box::new(two(p)),
        SignalParams::DoubleMA2(p) => Box::new(Two { s: p.mas.0.construct(), l: p.mas.1.construct(), a: Advice::None, th: Some((p.neg_threshold, p.pos_threshold)) }),
        SignalParams::TripleMA(p) => Box::new(Three { s: p.mas.0.construct(), m: p.mas.1.construct(), l: p.mas.2.construct(), a: Advice::None }),
        SignalParams::FourWeekRule(p) => Box::new(Weeks { ma: p.ma.construct(), n: p.period as usize, seen: vec![], a: Advice::None }),
        SignalParams::Macd(p) => Box::new(Conv { m: indicators::Macd::new(p.periods.0, p.periods.1, p.signal_period) }),
        SignalParams::DoubleMAStoch(p) => Box::new(TwoStoch {
            two: two(&p.double_ma), st: indicators::Stoch::new(p.stoch.k_period, p.stoch.k_sma_period, p.stoch.d_sma_period),
            up: p.stoch.up_threshold, down: p.stoch.down_threshold, a: Advice::None }),
    }
}
fn mid(h: &[Advice], p: MidTrendPolicy) -> Advice {
    let v = h[h.len() - 1];
    if p == MidTrendPolicy::Ignore && h.iter().all(|x| *x == h[0]) { Advice::None } else { v }
}
fn persist(h: &[Advice], level: u32) -> Advice {
    let v = h[h.len() - 1];
    if level == 0 || h.iter().rev().take_while(|x| **x == v).count() as u32 > level { v } else { Advice::None }
}
fn comb(a: Advice, b: Advice) -> Advice {
    if a == Advice::None || b == Advice::None { Advice::None } else if a == b { a } else { Liquidate }
}
struct Filtered { sig: Box<dyn Rule>, osc: Option<(OscillatorParams, OscImpl, bool)>, policy: MidTrendPolicy, level: u32, h: Vec<Advice>, a: Advice, buf: Option<BufferedCandle> }
enum OscImpl { Rsi(indicators::Rsi), Stoch(indicators::Stoch) }
impl Rule for Filtered {
    fn maturity(&self) -> u32 {
        let o = match &self.osc { None => 0, Some((_, OscImpl::Rsi(r), _)) => r.maturity(), Some((_, OscImpl::Stoch(s), _)) => s.maturity() };
        let m = if self.policy == MidTrendPolicy::Current { 1 } else { 2 };
        self.sig.maturity().max(o) + m.max(self.level + 1) - 1
    }
    fn step(&mut self, c: &Candle) -> (bool, Advice) {
        let c = &match &mut self.buf { None => *c, Some(b) => match b.buffer(c) { None => return (false, self.a), Some(x) => *x } };
        let (mut ripe, mut v) = self.sig.step(c);
        if let Some((p, o, f)) = &mut self.osc {
            let (m, x) = match o {
                OscImpl::Rsi(r) => { r.update(c.close); (r.mature(), r.value) }
                OscImpl::Stoch(s) => { s.update(c.high, c.low, c.close); (s.mature(), s.k) }
            };
            let (up, down) = match p { OscillatorParams::Rsi(p) => (p.up_threshold, p.down_threshold), OscillatorParams::Stoch(p) => (p.up_threshold, p.down_threshold) };
            ripe &= m;
            let (bought, sold) = (x >= up, x < down);
            let keep = match (v, *f) {
                (Long, true) => sold,
                (Short, true) => bought,
                (Long, false) => !bought,
                (Short, false) => !sold,
                _ => true,
            };
            if !keep { v = Liquidate }
        }
        if ripe {
            self.h.push(v);
            self.a = comb(mid(&self.h, self.policy), persist(&self.h, self.level));
        }
        (ripe, self.a)
    }
}
pub fn rule(p: &StrategyParams, interval: Interval) -> Box<dyn Rule> {
    let (sig, osc, policy, level, buf) = match p {
        StrategyParams::DoubleMA(p) => return signal_rule(&SignalParams::DoubleMA(*p)),
        StrategyParams::DoubleMA2(p) => return signal_rule(&SignalParams::DoubleMA2(*p)),
        StrategyParams::DoubleMAStoch(p) => return signal_rule(&SignalParams::DoubleMAStoch(*p)),
        StrategyParams::FourWeekRule(p) => return signal_rule(&SignalParams::FourWeekRule(*p)),
        StrategyParams::Macd(p) => return signal_rule(&SignalParams::Macd(*p)),
        StrategyParams::SingleMA(p) => return signal_rule(&SignalParams::SingleMA(*p)),
        StrategyParams::TripleMA(p) => return signal_rule(&SignalParams::TripleMA(*p)),
        StrategyParams::Sig(p) => (p.sig, None, p.mid_trend_policy, p.persistence, p.buffer_interval),
        StrategyParams::SigOsc(p) => {
            let o = match p.osc { OscillatorParams::Rsi(q) => OscImpl::Rsi(indicators::Rsi::new(q.period)), OscillatorParams::Stoch(q) => OscImpl::Stoch(indicators::Stoch::new(q.k_period, q.k_sma_period, q.d_sma_period)) };
            (p.sig, Some((p.osc, o, serde_json::to_value(p).unwrap()["osc_filter"] == "Enforce")), p.mid_trend_policy, p.persistence, None)
        }
    };
    Box::new(Filtered { sig: signal_rule(&sig), osc, policy, level, h: vec![], a: Advice::None, buf: buf.map(|b| BufferedCandle::new(interval, Some(b))) })
}
pub fn random_signal(c: &mut Ctx, k: usize, big: u64) -> SignalParams {
    let mut m = |c: &mut Ctx, lo: u64, hi: u64| { let kind = c.u(0, 6) as usize; let p = c.u(lo, hi) as u32; random_ma(c, kind, p) };
    let s = big / 3 + 1;
    let two = |c: &mut Ctx, m: &mut dyn FnMut(&mut Ctx, u64, u64) -> MAParams| (m(c, 1, s), m(c, s + 1, 2 * s));
    let stoch = |c: &mut Ctx| StochParams { k_period: c.u(1, big) as u32, k_sma_period: c.u(1, 5) as u32, d_sma_period: c.u(1, 5) as u32, up_threshold: c.f(50.0, 99.0), down_threshold: c.f(1.0, 50.0) };
    match k {
        0 => SignalParams::SingleMA(SingleMAParams { ma: m(c, 1, big) }),
        1 => SignalParams::DoubleMA(DoubleMAParams { mas: two(c, &mut m) }),
        2 => SignalParams::DoubleMA2(DoubleMA2Params { mas: two(c, &mut m), neg_threshold: c.f(-1.0, -0.1), pos_threshold: c.f(0.1, 0.99) }),
        3 => SignalParams::TripleMA(TripleMAParams { mas: (m(c, 1, s), m(c, s + 1, 2 * s), m(c, 2 * s + 1, 3 * s)) }),
        4 => SignalParams::FourWeekRule(FourWeekRuleParams { period: c.u(2, big) as u32, ma: m(c, 1, big) }),
        5 => SignalParams::Macd(MacdParams { periods: if c.b(0.2) { (12, 26) } else { (c.u(1, s) as u32, c.u(s + 1, 2 * s) as u32) }, signal_period: c.u(1, 9) as u32 }),
        _ => SignalParams::DoubleMAStoch(DoubleMAStochParams { double_ma: DoubleMAParams { mas: two(c, &mut m) }, stoch: stoch(c) }),
    }
}
pub fn random_strategy(c: &mut Ctx, k: usize, big: u64, interval: u64) -> StrategyParams {
    let pol = c.pick(&[MidTrendPolicy::Current, MidTrendPolicy::Previous, MidTrendPolicy::Ignore]);
    let level = if c.b(0.4) { 0 } else { c.u(1, 4) as u32 };
    match k {
        7 => { let j = c.u(0, 6) as usize; StrategyParams::Sig(SigParams { sig: random_signal(c, j, big), persistence: level, mid_trend_policy: pol, buffer_interval: if c.b(0.3) { Some(Interval(interval * c.u(1, 3))) } else { None } }) }
        8 => {
            let j = c.u(0, 6) as usize;
            let osc = if c.b(0.5) { OscillatorParams::Rsi(RsiParams { period: c.u(1, big) as u32, up_threshold: c.f(50.0, 80.0), down_threshold: c.f(20.0, 50.0) }) }
                else { OscillatorParams::Stoch(StochParams { k_period: c.u(1, big) as u32, k_sma_period: c.u(1, 5) as u32, d_sma_period: c.u(1, 5) as u32, up_threshold: c.f(50.0, 80.0), down_threshold: c.f(20.0, 50.0) }) };
            let sig = random_signal(c, j, big);
            let f = if c.b(0.5) { "Enforce" } else { "Prevent" };
            StrategyParams::SigOsc(serde_json::from_value(serde_json::json!({"sig": sig, "osc": osc, "osc_filter": f, "persistence": level, "mid_trend_policy": pol})).unwrap())
        }
        k => match random_signal(c, k, big) {
            SignalParams::SingleMA(p) => StrategyParams::SingleMA(p),
            SignalParams::DoubleMA(p) => StrategyParams::DoubleMA(p),
            SignalParams::DoubleMA2(p) => StrategyParams::DoubleMA2(p),
            SignalParams::TripleMA(p) => StrategyParams::TripleMA(p),
            SignalParams::FourWeekRule(p) => StrategyParams::FourWeekRule(p),
            SignalParams::Macd(p) => StrategyParams::Macd(p),
            SignalParams::DoubleMAStoch(p) => StrategyParams::DoubleMAStoch(p),
        },
    }
}
pub fn run(c: &mut Ctx) {
    c.rule = "every strategy (all averages, filters, oscillators, buffered too), through StrategyParams::construct, against its rule restated over the crate's own indicators, at every candle; SignalParams::construct and the oscillators alike; non-trivial: at least two different real advices given".into();
    for i in 0..c.n(6000) {
        if c.done() { return; }
        let n = c.u(5, 150) as usize;
        let iv = 60_000;
        let wick = c.b(0.8);
        let mut cs = candles(c, n, iv, wick);
        if i % 4 == 0 { for k in &mut cs { for f in [&mut k.open, &mut k.high, &mut k.low, &mut k.close] { *f = (*f * 4.0).round().max(1.0) / 4.0 } } }
        let big = c.pick(&[4, 9, 15]);
        let p = random_strategy(c, i % 9, big, iv);
        let as_signal = i % 9 < 7 && c.b(0.4);
        let d: Vec<String> = cs.iter().map(|k| format!("{}/{}/{}", k.high, k.low, k.close)).collect();
        c.case(|| format!("{p:?} as_signal {as_signal}: {}", d.join(" ")), || {
            let meta = StrategyMeta { interval: Interval(iv) };
            let mut s = if as_signal {
                match p {
                    StrategyParams::SingleMA(p) => SignalParams::SingleMA(p), StrategyParams::DoubleMA(p) => SignalParams::DoubleMA(p),
                    StrategyParams::DoubleMA2(p) => SignalParams::DoubleMA2(p), StrategyParams::TripleMA(p) => SignalParams::TripleMA(p),
                    StrategyParams::FourWeekRule(p) => SignalParams::FourWeekRule(p), StrategyParams::Macd(p) => SignalParams::Macd(p),
                    StrategyParams::DoubleMAStoch(p) => SignalParams::DoubleMAStoch(p), _ => unreachable!(),
                }.construct(&meta)
            } else { p.construct(&meta) };
            let mut r = rule(&p, Interval(iv));
            ensure!(s.maturity() == r.maturity(), "declares maturity {}, expected {}", s.maturity(), r.maturity());
            ensure!(s.advice() == Advice::None && !s.mature(), "advice or maturity without candles");
            let mut seen = vec![];
            let mut ripe = 0;
            let buffered = matches!(p, StrategyParams::Sig(q) if q.buffer_interval.is_some());
            for (k, x) in cs.iter().enumerate() {
                s.update(x);
                let (m, e) = r.step(x);
                ripe += m as u32;
                let g = s.advice();
                ensure!(g == e, "after candle {} the advice is {g:?}, expected {e:?}", k + 1);
                ensure!(ripe > 0 || g == Advice::None, "advice {g:?} after candle {} before the indicators are mature", k + 1);
                if !buffered { ensure!(s.mature() == (k as u32 + 1 >= s.maturity()), "mature() after {} candles is {}", k + 1, s.mature()); }
                if g != Advice::None && !seen.contains(&g) { seen.push(g) }
            }
            Ok(seen.len() >= 2)
        });
    }
    // oscillators: overbought / oversold
    for i in 0..c.n(600) {
        if c.done() { return; }
        let n = c.u(5, 80) as usize;
        let cs = candles(c, n, 1, true);
        let (up, down) = (c.f(50.0, 90.0), c.f(10.0, 50.0));
        let (a, b, d) = (c.u(1, 9) as u32, c.u(1, 5) as u32, c.u(1, 5) as u32);
        let p = if i % 2 == 0 { OscillatorParams::Rsi(RsiParams { period: a, up_threshold: up, down_threshold: down }) } else { OscillatorParams::Stoch(StochParams { k_period: a, k_sma_period: b, d_sma_period: d, up_threshold: up, down_threshold: down }) };
        c.case(|| format!("{p:?} {:?}", cs.iter().map(|k| k.close).collect::<Vec<_>>()), || {
            let mut o = p.construct(&StrategyMeta { interval: Interval(1) });
            let (mut r, mut s) = (indicators::Rsi::new(a), indicators::Stoch::new(a, b, d));
            let (mut hi, mut lo) = (false, false);
            for x in &cs {
                o.update(x);
                r.update(x.close);
                s.update(x.high, x.low, x.close);
                let (m, v) = if i % 2 == 0 { (r.mature(), r.value) } else { (s.mature(), s.k) };
                ensure!(o.mature() == m && o.maturity() == if i % 2 == 0 { r.maturity() } else { s.maturity() }, "maturity");
                ensure!(o.overbought() == (m && v >= up) && o.oversold() == (m && v < down), "value {v} mature {m}: overbought {} oversold {}", o.overbought(), o.oversold());
                hi |= o.overbought();
                lo |= o.oversold();
            }
            Ok(hi && lo)
        });
    }
}

use crate::ctx::*;
use crate::ensure;
use crate::eng::random_case;
use juno::genetics::{Evaluation, Individual};
use juno::statistics::*;
use juno::trading::*;
use juno::{AssetInfo, ExchangeInfo, Interval, Timestamp};
use std::collections::HashMap;

/// one symbol's value on the scale of the aggregation, restated
fn worth(a: EvaluationAggregation, v: f64) -> f64 {
    let log = |v: f64| if v >= 0.0 { (1.0 + v).log10() } else { -(10f64.powf(1.0 - v)) };
    match a {
        EvaluationAggregation::Linear => v,
        EvaluationAggregation::Log10 => log(v),
        EvaluationAggregation::Log10Factored => log(10.0 * v),
    }
}
const SYMBOLS: [&str; 4] = ["eth-btc", "ltc-btc", "xrp-btc", "ada-btc"];
pub fn run(c: &mut Ctx) {
    c.rule = "populations of 1-5 random parameter sets over 0-4 symbols with their own candles, fees, filters and borrow terms, every statistic and aggregation: the fitness is the fold from zero of the statistics of the public backtest (doubled margin, both directions, daily periods), chromosomes are left alone; non-trivial: some symbol has a non-zero value".into();
    for i in 0..c.n(4000) {
        if c.done() { return; }
        let n = if i % 50 == 0 { 0 } else { c.u(1, 4) as usize };
        let pop = c.u(1, 5) as usize;
        let ivs = [Interval(60_000), Interval(3_600_000), Interval(86_400_000)];
        let mut cases = vec![];
        for k in 0..n.max(1) { cases.push(random_case(c, i + k)); }
        let mut inds = vec![];
        for k in 0..pop {
            let mut p = random_case(c, i * 3 + k + 1).params;
            if let juno::strategies::StrategyParams::Sig(s) = &mut p.strategy { s.buffer_interval = None; }
            p.trader.interval = c.pick(&ivs);
            inds.push(p);
        }
        let quote = c.pick(&[0.01, 0.1, 1.0, 1.0, 10.0, 1000.0]);
        let (mut fees, mut filters, mut borrow, mut assets, mut candles, mut prices) = (HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new(), HashMap::new());
        prices.insert("btc".to_string(), vec![1.0; 800]);
        for k in 0..4 {
            let case = &cases[k % cases.len()];
            let s = SYMBOLS[k].to_string();
            let base = s[..3].to_string();
            fees.insert(s.clone(), case.fees);
            // sizes in the reach of the capital
            let mut f = case.filters;
            if c.b(0.8) { f.size.min = 0.0; f.size.max = 0.0; f.size.step = 1e-8; f.base_precision = 10; f.quote_precision = 10; }
            filters.insert(s.clone(), f);
            let mut b = HashMap::new();
            for (j, o) in SYMBOLS.iter().enumerate() { b.insert(o[..3].to_string(), if j == k { case.borrow } else { cases[j % cases.len()].borrow }); }
            borrow.insert(s.clone(), b);
            assets.insert(base.clone(), AssetInfo { precision: 8 });
            let mut m = HashMap::new();
            for iv in ivs {
                let iv0 = case.iv().0;
                let mut v = case.candles.clone();
                for x in v.iter_mut() { x.time = Timestamp(x.time.0 / iv0 * iv.0); }
                if c.b(0.5) { v.truncate((c.u(2, 60) as usize).min(v.len())); }
                m.insert(iv, v);
            }
            candles.insert(s.clone(), m);
            let p0 = case.candles.first().map_or(1.0, |x| x.close);
            let mut p = p0;
            prices.insert(base, (0..800).map(|_| { p *= 1.0 + c.f(-0.02, 0.02); p }).collect::<Vec<f64>>());
        }
        let info = ExchangeInfo { assets, fees, filters, borrow_info: borrow };
        let symbols: Vec<String> = { let o = c.u(0, 3) as usize; (0..n).map(|k| SYMBOLS[(k + o) % 4].to_string()).collect() };
        let stat = c.pick(&EvaluationStatistic::values());
        let agg = c.pick(&EvaluationAggregation::values());
        c.case(|| format!("symbols {symbols:?} quote {quote} statistic {} aggregation {} {inds:?} cases {}", serde_json::to_string(&stat).unwrap(), serde_json::to_string(&agg).unwrap(),
                cases.iter().map(|x| x.desc()).collect::<Vec<_>>().join(" | ")), || {
            let ev = BasicEvaluation::new(&BasicEvaluationInput {
                exchange_info: &info, candles: &candles, prices: &prices, symbols: &symbols, intervals: &ivs, start: Timestamp(0), end: Timestamp(1),
                quote, evaluation_statistic: stat, evaluation_aggregation: agg,
            });
            let mut population: Vec<Individual<TradingParams>> = inds.iter().map(|p| Individual { chromosome: *p, fitness: f64::MIN }).collect();
            ev.evaluate(&mut population);
            ensure!(population.len() == inds.len(), "the population has {} individuals instead of {}", population.len(), inds.len());
            let mut any = false;
            for (k, ind) in population.iter().enumerate() {
                ensure!(format!("{:?}", ind.chromosome) == format!("{:?}", inds[k]), "the chromosome of individual {k} changed");
                let p = &inds[k];
                let mut want = 0.0;
                let mut vs = vec![];
                for s in &symbols {
                    let base = &s[..3];
                    let y = trade(p, &TradeInput {
                        candles: &candles[s][&p.trader.interval], fees: &info.fees[s], filters: &info.filters[s], borrow_info: &info.borrow_info[s][base],
                        margin_multiplier: 2, quote, long: true, short: true,
                    });
                    let v = match stat {
                        EvaluationStatistic::Profit => get_profit(&y),
                        EvaluationStatistic::ReturnOverMaxDrawdown => get_return_over_max_drawdown(&y),
                        EvaluationStatistic::SharpeRatio => get_sharpe_ratio(&y, s, &prices, Interval::DAY_MS),
                        EvaluationStatistic::SortinoRatio => get_sortino_ratio(&y, s, &prices, Interval::DAY_MS),
                    };
                    any |= v != 0.0;
                    vs.push(v);
                    want += worth(agg, v);
                }
                let got = ind.fitness;
                ensure!(got == want || (got - want).abs() <= 1e-9 * (1.0 + want.abs()), "individual {k}: fitness {got}, expected {want} from the symbols' values {vs:?}");
                if vs.iter().all(|v| *v == 0.0) { ensure!(got == 0.0, "individual {k}: fitness {got} from zero values"); }
            }
            Ok(any)
        });
    }
}

use crate::ctx::*;
use crate::ensure;
use crate::ga::*;
use juno::genetics::{crossover::*, mutation::*, reinsertion::*, selection::*, Evaluation, Evolution, GeneticAlgorithm, Generation};
use juno::trading::TradingParams;
use juno::genetics::Chromosome;
use std::cell::RefCell;

thread_local! { static CALLS: RefCell<Vec<usize>> = RefCell::new(vec![]); }
fn note<T: Chromosome>(i: usize, _: &Generation<T>) { CALLS.with(|c| c.borrow_mut().push(i)) }

#[derive(Clone, Copy, Debug)]
struct Cfg { n: usize, gens: usize, hall: usize, seed: u64, sel: u64, rein: u64, rate: f32, newcomers: f32, tour: f32, shuffle: bool, mix: f32, mutp: f32 }
fn go<E: Evaluation>(e: E, k: &Cfg, ctx: &<E::Chromosome as Chromosome>::Context) -> Evolution<E::Chromosome> {
    let (x, m) = (UniformCrossover::new(k.mix), UniformMutation::new(k.mutp));
    macro_rules! run { ($s:expr, $r:expr) => { GeneticAlgorithm::new(e, $s, x, m, $r).evolve(k.n, k.gens, k.hall, Some(k.seed), note, ctx) } }
    match (k.sel, k.rein) {
        (0, 0) => run!(EliteSelection::new(k.shuffle), EliteReinsertion::new(k.rate, k.newcomers)),
        (0, _) => run!(EliteSelection::new(k.shuffle), PureReinsertion {}),
        (1, 0) => run!(TournamentSelection::new(k.tour, true), EliteReinsertion::new(k.rate, k.newcomers)),
        (1, 1) => run!(TournamentSelection::new(k.tour, true), FitnessReinsertion::new(1.0 + k.rate)),
        (1, _) => run!(TournamentSelection::new(k.tour, true), PureReinsertion {}),
        _ => run!(GenerateRandomSelection {}, PureReinsertion {}),
    }
}
fn trading_ctx() -> <TradingParams as Chromosome>::Context {
    serde_json::from_value(serde_json::json!({"strategy": {"type": "None"}, "trader": {"intervals": [3_600_000, 86_400_000]}, "stop_loss": {"type": "None"}, "take_profit": {"type": "None"}})).unwrap()
}
/// text of an evolution of real parameters; also run in a child process
pub fn digest(seed: u64) -> String {
    let k = Cfg { n: 30, gens: 4, hall: 30, seed, sel: 1, rein: seed % 3, rate: 0.6, newcomers: 0.3, tour: 0.3, shuffle: true, mix: 0.5, mutp: 0.3 };
    let e = go(HashEval, &k, &trading_ctx());
    e.generations.iter().flat_map(|g| g.hall_of_fame.iter().map(|i| format!("{} {}", serde_json::to_string(&i.chromosome).unwrap(), i.fitness))).collect::<Vec<_>>().join("\n")
}
pub fn run(c: &mut Ctx) {
    c.rule = "whole evolutions over every compatible selection x reinsertion, populations from 2, extreme rates, fine/coarse/constant/negative fitness; sizes, order, elitism, fitness bookkeeping, repeatability (also in a second process, for real trading parameters); non-trivial: the best fitness changes".into();
    for i in 0..c.n(6000) {
        if c.done() { return; }
        let n = match i % 5 { 0 => c.u(2, 4) as usize, _ => c.u(2, 40) as usize };
        let sel = c.u(0, 2);
        let rein = if sel == 2 { 2 } else { c.u(0, 2) };
        let rein = if sel == 0 && rein == 1 { 0 } else { rein };
        let p = |c: &mut Ctx| c.pick(&[0.0f32, 0.1, 0.5, 0.9, 1.0]);
        let k = Cfg { n, gens: c.u(0, 8) as usize, hall: c.u(1, 45) as usize, seed: c.u(0, u64::MAX - 1), sel, rein,
            rate: c.pick(&[1e-6f32, 0.01, 0.1, 0.25, 0.5, 0.75, 0.9, 0.99, 0.999999]), newcomers: p(c), tour: c.pick(&[0.01f32, 0.2, 0.5, 0.99]), shuffle: c.b(0.5), mix: p(c), mutp: p(c) };
        let ev = c.pick(&[RowEval::Sum, RowEval::Coarse, RowEval::Constant, RowEval::Negative]);
        let evn = ev.of(&Row(vec![1; ROW]));
        c.case(|| format!("{k:?} fitness kind {evn}"), || {
            CALLS.with(|c| c.borrow_mut().clear());
            let e = go(ev, &k, &());
            let calls = CALLS.with(|c| c.borrow().clone());
            ensure!(e.seed == k.seed, "seed {}", e.seed);
            ensure!(e.generations.len() == k.gens + 1, "{} generations reported for {}", e.generations.len(), k.gens);
            ensure!(calls == (0..=k.gens).collect::<Vec<_>>(), "callback called with {calls:?}");
            let mut best = f64::MIN;
            let mut moved = false;
            for (g, x) in e.generations.iter().enumerate() {
                let h = &x.hall_of_fame;
                ensure!(h.len() == k.hall.min(k.n), "generation {g}: hall of {} for population {} and hall size {}", h.len(), k.n, k.hall);
                ensure!(h.windows(2).all(|w| w[0].fitness >= w[1].fitness), "generation {g}: hall of fame is not ordered: {:?}", h.iter().map(|i| i.fitness).collect::<Vec<_>>());
                for (j, y) in h.iter().enumerate() {
                    // a newcomer of elite reinsertion is not evaluated before it is selected
                    ensure!(y.fitness == ev.of(&y.chromosome) || y.fitness == f64::MIN && k.rein == 0 && k.newcomers > 0.0 && g > 0, "generation {g}: individual {j} reports fitness {} instead of {}", y.fitness, ev.of(&y.chromosome));
                }
                if k.rein == 0 && k.newcomers < 1.0 && g > 0 { ensure!(h[0].fitness >= best, "generation {g}: best fitness fell from {best} to {}", h[0].fitness); }
                moved |= g > 0 && h[0].fitness != best;
                best = h[0].fitness;
            }
            let e2 = go(ev, &k, &());
            let flat = |e: &Evolution<Row>| e.generations.iter().map(|g| g.hall_of_fame.iter().map(|i| (i.chromosome.0.clone(), i.fitness)).collect::<Vec<_>>()).collect::<Vec<_>>();
            ensure!(flat(&e) == flat(&e2), "two runs with the same seed differ");
            Ok(moved)
        });
    }
    for s in 0..c.n(6) as u64 {
        if c.done() { return; }
        let seed = c.seed * 1000 + s;
        c.case(|| format!("evolution of trading parameters, seed {seed}, in two processes"), || {
            let a = digest(seed);
            ensure!(a == digest(seed), "two runs in one process differ");
            let o = std::process::Command::new(std::env::current_exe().unwrap()).args(["DIGEST", "--seed", &seed.to_string()]).output().map_err(|e| e.to_string())?;
            ensure!(String::from_utf8_lossy(&o.stdout).trim_end() == a.trim_end(), "a run in another process differs");
            Ok(true)
        });
    }
}

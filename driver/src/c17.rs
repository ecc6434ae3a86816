use crate::ctx::*;
use crate::ensure;
use crate::ga::*;
use juno::genetics::{reinsertion::*, selection::*, Chromosome, Individual};
use rand::prelude::*;

fn ids(v: &[Individual<Row>]) -> Vec<(u64, f64)> { v.iter().map(|i| (i.chromosome.0[0], i.fitness)).collect() }
/// ordered best to worst, chromosomes identify the individual, ties on purpose
fn pop(c: &mut Ctx, n: usize, tag: u64) -> Vec<Individual<Row>> {
    let coarse = c.b(0.5);
    let mut f: Vec<f64> = (0..n).map(|_| if coarse { c.u(0, 3) as f64 } else { c.f(-100.0, 100.0) }).collect();
    f.sort_by(|a, b| b.partial_cmp(a).unwrap());
    f.into_iter().enumerate().map(|(i, fitness)| Individual { chromosome: Row(vec![tag + i as u64; ROW]), fitness }).collect()
}
fn sorted(mut v: Vec<(u64, f64)>) -> Vec<(u64, f64)> { v.sort_by(|a, b| a.partial_cmp(b).unwrap()); v }
fn ordered(v: &[Individual<Row>]) -> bool { v.windows(2).all(|w| w[0].fitness >= w[1].fitness) }
pub fn run(c: &mut Ctx) {
    c.rule = "ordered populations of 2-60 (ties included), all selections and reinsertions with extreme rates, individuals tagged so that who survives is visible; tournament group sizes checked by the worst possible winner and by frequency; non-trivial: some but not all parents survive".into();
    let rates = [1e-6f32, 0.1, 0.25, 1.0 / 3.0, 0.5, 0.75, 0.9, 0.99, 1.0];
    for i in 0..c.n(8000) {
        if c.done() { return; }
        let n = if i % 5 == 0 { c.u(2, 4) } else { c.u(2, 60) } as usize;
        let parents = pop(c, n, 0);
        let rate = c.pick(&rates);
        let seed = c.u(0, 1 << 40);
        let (shuffle, tour) = (c.b(0.5), c.pick(&[0.01f32, 0.1, 0.2, 0.5, 0.75, 0.99]));
        let over = c.pick(&[1.0f32, 1.01, 1.25, 1.5, 2.0]);
        let kind = i % 3;
        c.case(|| format!("selection {kind} of {n} parents, rate {rate}, tournament {tour}, shuffle {shuffle}, seed {seed}"), || {
            let mut rng = StdRng::seed_from_u64(seed);
            let mut out = vec![];
            let before = ids(&parents);
            let share = |r: f32| (n as f64 * r as f64 + 1e-4).floor() as usize..=(n as f64 * r as f64 + 1e-4).floor() as usize;
            let near = |r: f32, got: usize| share(r).contains(&got) || (n as f64 * r as f64 - 1e-4).floor() as usize == got;
            match kind {
                0 => {
                    EliteSelection::new(shuffle).select(&mut rng, &parents, &mut out, rate, &());
                    ensure!(near(rate, out.len()), "selected {} of {n}", out.len());
                    let best = before[..out.len()].to_vec();
                    if shuffle { ensure!(sorted(ids(&out)) == sorted(best), "selected {:?}", ids(&out)); } else { ensure!(ids(&out) == best, "selected {:?}", ids(&out)); }
                }
                1 => {
                    let r = if rate == 1.0 { over } else { rate };
                    TournamentSelection::new(tour, true).select(&mut rng, &parents, &mut out, r, &());
                    ensure!(near(r, out.len()), "selected {} of {n}", out.len());
                    let k = ((n as f32 * tour) as usize).max(1);
                    let worst = parents[n - k].fitness;
                    for o in &out {
                        let j = o.chromosome.0[0] as usize;
                        ensure!(j < n && o.chromosome == parents[j].chromosome && o.fitness == parents[j].fitness, "selected an individual that is no parent");
                        ensure!(o.fitness >= worst, "a winner of fitness {} cannot be the fittest of {k} out of {n}", o.fitness);
                    }
                }
                _ => {
                    GenerateRandomSelection {}.select(&mut rng, &parents, &mut out, 1.0, &());
                    ensure!(out.len() == n, "generated {} of {n}", out.len());
                    ensure!(out.iter().all(|o| o.fitness == f64::MIN && o.chromosome.0.len() == Row::len()), "not fresh individuals");
                    ensure!(n < 4 || out.iter().any(|o| o.chromosome != out[0].chromosome), "all fresh individuals are the same");
                }
            }
            ensure!(ids(&parents) == before, "parents changed");
            Ok(!out.is_empty() && out.len() < n)
        });
        // reinsertion
        let m = c.u(0, n as u64 - 1) as usize;
        let gen_rate = c.pick(&[0.0f32, 0.25, 0.5, 0.75, 1.0]);
        let extra = c.u(0, 10) as usize;
        let count = match kind { 0 => m, 1 => n + extra, _ => n };
        let off = pop(c, count, 10_000);
        c.case(|| format!("reinsertion {kind}: {n} parents, {count} offspring, generation rate {gen_rate}, seed {seed}"), || {
            let mut rng = StdRng::seed_from_u64(seed);
            let mut out = off.clone();
            match kind {
                0 => {
                    EliteReinsertion::new(0.5, gen_rate).reinsert(&mut rng, &parents, &mut out, n, &());
                    let fresh = ((n - m) as f64 * gen_rate as f64).floor() as usize;
                    ensure!(out.len() == n, "population of {} instead of {n}", out.len());
                    let mut want = ids(&off);
                    want.extend(ids(&parents[..n - m - fresh]));
                    let known: Vec<_> = out.iter().filter(|o| o.fitness != f64::MIN).cloned().collect();
                    ensure!(sorted(ids(&known)) == sorted(want), "survivors {:?}", ids(&out));
                    ensure!(out.iter().filter(|o| o.fitness == f64::MIN).count() == fresh, "newcomers");
                }
                1 => {
                    FitnessReinsertion::new(1.25).reinsert(&mut rng, &parents, &mut out, n, &());
                    ensure!(ids(&out) == ids(&off[..n]), "survivors {:?}", ids(&out));
                }
                _ => {
                    PureReinsertion {}.reinsert(&mut rng, &parents, &mut out, n, &());
                    ensure!(ids(&out) == ids(&off), "survivors {:?}", ids(&out));
                }
            }
            ensure!(ordered(&out), "not ordered: {:?}", out.iter().map(|o| o.fitness).collect::<Vec<_>>());
            for o in &out {
                let id = o.chromosome.0[0] as usize;
                if o.fitness != f64::MIN {
                    let src = if id >= 10_000 { &off[id - 10_000] } else { &parents[id] };
                    ensure!(o.chromosome == src.chromosome && o.fitness == src.fitness, "individual {id} changed");
                }
            }
            Ok(kind == 0 && m > 0)
        });
    }
    // groups are random: the best of 20 wins a group of k with frequency k/20
    for tour in [0.05f32, 0.25, 0.5] {
        let parents: Vec<_> = (0..20).map(|i| Individual { chromosome: Row(vec![i; ROW]), fitness: 100.0 - i as f64 }).collect();
        let seed = c.seed;
        c.case(|| format!("20000 tournaments of rate {tour} among 20, seed {seed}"), || {
            let mut out = vec![];
            TournamentSelection::new(tour, true).select(&mut StdRng::seed_from_u64(seed), &parents, &mut out, 1000.0, &());
            let k = (20.0 * tour) as usize as f64;
            let p = k / 20.0;
            let got = out.iter().filter(|o| o.chromosome.0[0] == 0).count() as f64 / out.len() as f64;
            ensure!((got - p).abs() < 6.0 * (p * (1.0 - p) / out.len() as f64).sqrt(), "the best wins {got} of the tournaments, expected {p}");
            Ok(true)
        });
    }
}

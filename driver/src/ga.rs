//! Chromosomes and evaluations used by C16-C18.
use juno::genetics::{Chromosome, Evaluation, Individual};
use juno_derive::*;
use rand::prelude::*;
use serde::{Deserialize, Serialize};

/// eight independent genes, every draw recorded in the value itself
#[derive(Clone, Debug, PartialEq, Serialize)]
pub struct Row(pub Vec<u64>);
pub const ROW: usize = 8;
impl Chromosome for Row {
    type Context = ();
    fn len() -> usize { ROW }
    fn generate(rng: &mut StdRng, _: &()) -> Self { Row((0..ROW).map(|_| rng.gen_range(0..1000)).collect()) }
    fn cross(&mut self, other: &mut Self, i: usize) { std::mem::swap(&mut self.0[i], &mut other.0[i]) }
    fn mutate(&mut self, rng: &mut StdRng, i: usize, _: &()) { self.0[i] = rng.gen_range(1000..2000) }
}
/// fitness: a coarse function (many ties) or a fine one, negative values included
#[derive(Clone, Copy)]
pub enum RowEval { Sum, Coarse, Constant, Negative }
impl RowEval {
    pub fn of(&self, r: &Row) -> f64 {
        let s: u64 = r.0.iter().enumerate().map(|(i, x)| x * (i as u64 + 1)).sum();
        match self { Self::Sum => s as f64, Self::Coarse => (s / 5000) as f64, Self::Constant => 1.0, Self::Negative => -(s as f64) * 1e3 }
    }
}
impl Evaluation for RowEval {
    type Chromosome = Row;
    fn evaluate(&self, p: &mut [Individual<Row>]) { for i in p { i.fitness = self.of(&i.chromosome) } }
}

// nested derived chromosomes with distinct leaves
#[derive(Chromosome, Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct LeafParams { pub p: u64, pub q: u64, pub r: u64 }
#[derive(Chromosome, Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct PairParams { #[chromosome] pub one: LeafParams, #[chromosome] pub two: LeafParams, pub s: u64, pub t: u64 }
#[derive(Chromosome, Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct TinyParams { pub u: u64 }
#[derive(ChromosomeEnum, Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
#[serde(tag = "type")]
pub enum AnyParams { Leaf(LeafParams), Pair(PairParams), Tiny(TinyParams) }
#[derive(Chromosome, Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct DeepParams { #[chromosome] pub any: AnyParams, #[chromosome] pub pair: PairParams, #[chromosome] pub other: AnyParams, pub v: u64, pub w: u64 }
macro_rules! draw { ($($f:ident)*) => { $(fn $f(rng: &mut StdRng) -> u64 { rng.gen() })* } }
draw!(p q r s t u v w);

/// deterministic fitness of any parameters
pub struct HashEval;
impl Evaluation for HashEval {
    type Chromosome = juno::trading::TradingParams;
    fn evaluate(&self, p: &mut [Individual<Self::Chromosome>]) {
        for i in p {
            let s = serde_json::to_string(&i.chromosome).unwrap();
            i.fitness = (s.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64)) % 1000) as f64;
        }
    }
}

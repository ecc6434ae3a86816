// ---- crossover and mutation ----
pub trait Crossover {
    spec fn crossed<T: Chromosome>(&self, r: StdRng, a: T, b: T) -> ((T, T), StdRng);
    fn cross<T: Chromosome>(&self, rng: &mut StdRng, chromosome1: &mut T, chromosome2: &mut T)
        ensures ((*final(chromosome1), *final(chromosome2)), *final(rng)) == self.crossed::<T>(*old(rng), *old(chromosome1), *old(chromosome2));
}
pub trait Mutation {
    spec fn mutated<T: Chromosome>(&self, r: StdRng, a: T, c: T::Context) -> (T, StdRng);
    fn mutate<T: Chromosome>(&self, rng: &mut StdRng, chromosome: &mut T, ctx: &T::Context)
        ensures (*final(chromosome), *final(rng)) == self.mutated::<T>(*old(rng), *old(chromosome), *ctx);
}
/*@struct juno/src/genetics/crossover.rs UniformCrossover
@*/
/*@struct juno/src/genetics/mutation.rs UniformMutation
@*/
// genes at the same position are exchanged with the given probability
pub open spec fn uni_cross<T: Chromosome>(p: real, r: StdRng, a: T, b: T, n: nat) -> ((T, T), StdRng) decreases n {
    if n == 0 { ((a, b), r) } else {
        let q = uni_cross(p, r, a, b, (n - 1) as nat);
        let d = r_f32(q.1);
        if d.0.v() < p { (T::g_cross(q.0.0, q.0.1, (n - 1) as nat), d.1) } else { (q.0, d.1) } } }
pub open spec fn uni_mutate<T: Chromosome>(p: real, r: StdRng, a: T, n: nat, c: T::Context) -> (T, StdRng) decreases n {
    if n == 0 { (a, r) } else {
        let q = uni_mutate(p, r, a, (n - 1) as nat, c);
        let d = r_f32(q.1);
        if d.0.v() < p { T::g_mut(q.0, d.1, (n - 1) as nat, c) } else { (q.0, d.1) } } }
impl UniformCrossover {
    pub open spec fn wf(&self) -> bool { 0real <= self.mix_probability.v() <= 1real }
/*@fn juno/src/genetics/crossover.rs UniformCrossover::new
ret: r
spec:
    requires 0real <= mix_probability.v() <= 1real,
    ensures r.wf(), r.mix_probability == mix_probability,
@*/
/*@fn juno/src/genetics/crossover.rs UniformCrossover::Default::default
ret: r
spec:
    ensures r.wf(),
@*/
}
impl Crossover for UniformCrossover {
    open spec fn crossed<T: Chromosome>(&self, r: StdRng, a: T, b: T) -> ((T, T), StdRng) { uni_cross(self.mix_probability.v(), r, a, b, T::g_len()) }
/*@fn juno/src/genetics/crossover.rs UniformCrossover::Crossover::cross
flag: novis
head:
    let ghost (r0, a0, b0) = (*rng, *chromosome1, *chromosome2);
loop 0 inv:
    invariant e_0 == T::g_len(), 0 <= i_0 <= e_0, ((*chromosome1, *chromosome2), *rng) == uni_cross(self.mix_probability.v(), r0, a0, b0, i_0 as nat),
    decreases e_0 - i_0
@*/
}
impl UniformMutation {
    pub open spec fn wf(&self) -> bool { 0real <= self.mutation_probability.v() <= 1real }
/*@fn juno/src/genetics/mutation.rs UniformMutation::new
ret: r
spec:
    requires 0real <= mutation_probability.v() <= 1real,
    ensures r.wf(), r.mutation_probability == mutation_probability,
@*/
/*@fn juno/src/genetics/mutation.rs UniformMutation::Default::default
ret: r
spec:
    ensures r.wf(),
@*/
}
impl Mutation for UniformMutation {
    open spec fn mutated<T: Chromosome>(&self, r: StdRng, a: T, c: T::Context) -> (T, StdRng) { uni_mutate(self.mutation_probability.v(), r, a, T::g_len(), c) }
/*@fn juno/src/genetics/mutation.rs UniformMutation::Mutation::mutate
flag: novis
head:
    let ghost (r0, a0) = (*rng, *chromosome);
loop 0 inv:
    invariant e_0 == T::g_len(), 0 <= i_0 <= e_0, (*chromosome, *rng) == uni_mutate(self.mutation_probability.v(), r0, a0, i_0 as nat, *ctx),
    decreases e_0 - i_0
@*/
}

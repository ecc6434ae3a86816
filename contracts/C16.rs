//@include hdr.rs
verus! {
//@subst_type fn(usize, &Generation<TE::Chromosome>) -> () => impl Fn(usize, &Generation<TE::Chromosome>) -> ()
//@include fl.rs
//@include rt.rs
//@include iter.rs
//@include gen.rs
//@include genops.rs
//@include genx.rs
// ---- shim: clocks (only reported) and the parts of Vec the loop uses ----
pub mod time {
    #[derive(Clone, Copy)] pub struct Duration { pub x: u64 }
    #[derive(Clone, Copy)] pub struct Instant { pub x: u64 }
    impl Instant {
        #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
        #[verifier::external_body] pub fn elapsed(&self) -> Duration { unimplemented!() }
    }
}
pub use time::Duration;
#[verifier::external_body]
pub fn any_seed() -> (r: u64) { unimplemented!() }
impl<T> SplitX<T> for Vec<T> { open spec fn sp(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn split_at_mut(&mut self, k: usize) -> (r: (&mut [T], &mut [T])) { unimplemented!() } }
pub struct ItR<'a, T> { pub v: Vec<&'a T> }
impl<'a, T> View for ItR<'a, T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { derefs(self.v@) } }
pub trait IterC<T: Chromosome> { fn iter_x<'a>(&'a self) -> (r: ItR<'a, Individual<T>>) ensures r@ == self.cs(); spec fn cs(&self) -> Seq<Individual<T>>; }
impl<T: Chromosome> IterC<T> for Vec<Individual<T>> { open spec fn cs(&self) -> Seq<Individual<T>> { self@ }
    fn iter_x<'a>(&'a self) -> (r: ItR<'a, Individual<T>>) {
        let it = refs(self);
        proof { assert(derefs(it.v@) =~= self@); }
        ItR { v: it.v } } }
impl<'a, T: Chromosome> ItR<'a, Individual<T>> {
    pub fn take(self, n: usize) -> (r: Self) ensures r@ == self@.take(if n <= self@.len() { n as int } else { self@.len() as int })
    {
        let mut o: Vec<&'a Individual<T>> = Vec::new();
        let mut i: usize = 0;
        while i < n && i < self.v.len() invariant i <= n, i <= self.v@.len(), o@ =~= self.v@.take(i as int) decreases self.v@.len() - i { o.push(self.v[i]); i = i + 1; }
        proof { assert(derefs(o@) =~= self@.take(i as int)); }
        ItR { v: o }
    }
    pub fn cloned(self) -> (r: It<Individual<T>>) ensures r@ == self@
    {
        let mut o: Vec<Individual<T>> = Vec::new();
        let mut i: usize = 0;
        while i < self.v.len() invariant i <= self.v@.len(), o@ =~= self@.take(i as int) decreases self.v@.len() - i { o.push(self.v[i].clone()); i = i + 1; }
        It { v: o }
    }
}
/*@struct juno/src/genetics/mod.rs Timings
@*/
impl Timings {
    #[verifier::external_body] pub fn default() -> Timings { unimplemented!() }
}
/*@struct juno/src/genetics/mod.rs Generation
@*/
/*@struct juno/src/genetics/mod.rs Evolution
@*/
// An evaluation assigns every chromosome its fitness.
pub trait Evaluation {
    type Chromosome: Chromosome;
    spec fn fit(&self, c: Self::Chromosome) -> Fl;
    fn evaluate(&self, population: &mut [Individual<Self::Chromosome>])
        ensures final(population)@ == Seq::new(old(population)@.len(), |i: int| Individual { chromosome: old(population)@[i].chromosome, fitness: self.fit(old(population)@[i].chromosome) });
}
pub open spec fn rated<E: Evaluation>(e: &E, s: Seq<Individual<E::Chromosome>>) -> Seq<Individual<E::Chromosome>> {
    Seq::new(s.len(), |i: int| Individual { chromosome: s[i].chromosome, fitness: e.fit(s[i].chromosome) }) }
/*@struct juno/src/genetics/algorithm.rs GeneticAlgorithm
@*/
// ---- the specification of a whole evolution, as a function of the seed, the configuration and the evaluation ----
pub open spec fn with<T: Chromosome>(x: Individual<T>, c: T) -> Individual<T> { Individual { chromosome: c, fitness: x.fitness } }
// neighbours are crossed and mutated; a last one without a neighbour pairs with the first; an only one is just mutated
pub open spec fn mixed<T: Chromosome, C: Crossover, M: Mutation>(x: C, m: M, r: StdRng, s: Seq<Individual<T>>, i: nat, c: T::Context) -> (Seq<Individual<T>>, StdRng)
    decreases (if i < s.len() { s.len() - i } else { 0 })
{
    if i >= s.len() { (s, r) }
    else if s.len() == 1 { let q = m.mutated::<T>(r, s[0].chromosome, c); (s.update(0, with(s[0], q.0)), q.1) }
    else {
        let j = if i == s.len() - 1 { 0int } else { i as int + 1 };
        let y = x.crossed::<T>(r, s[i as int].chromosome, s[j].chromosome);
        let a = m.mutated::<T>(y.1, y.0.0, c);
        let b = m.mutated::<T>(a.1, y.0.1, c);
        mixed(x, m, b.1, s.update(i as int, with(s[i as int], a.0)).update(j, with(s[j], b.0)), (i + 2) as nat, c)
    }
}
pub proof fn lemma_mixed_len<T: Chromosome, C: Crossover, M: Mutation>(x: C, m: M, r: StdRng, s: Seq<Individual<T>>, i: nat, c: T::Context)
    ensures mixed(x, m, r, s, i, c).0.len() == s.len() decreases (if i < s.len() { s.len() - i } else { 0 })
{
    if i < s.len() && s.len() != 1 {
        let j = if i == s.len() - 1 { 0int } else { i as int + 1 };
        let y = x.crossed::<T>(r, s[i as int].chromosome, s[j].chromosome);
        let a = m.mutated::<T>(y.1, y.0.0, c);
        let b = m.mutated::<T>(a.1, y.0.1, c);
        lemma_mixed_len(x, m, b.1, s.update(i as int, with(s[i as int], a.0)).update(j, with(s[j], b.0)), (i + 2) as nat, c);
    }
}
pub open spec fn ranked<E: Evaluation>(e: E, s: Seq<Individual<E::Chromosome>>) -> Seq<Individual<E::Chromosome>> { sorted_seq(desc::<E::Chromosome>(), rated(&e, s)) }
pub proof fn lemma_ranked<E: Evaluation>(e: E, s: Seq<Individual<E::Chromosome>>) ensures ranked(e, s).len() == s.len(), ordered(ranked(e, s))
{
    let z = ranked(e, s);
    lemma_desc::<E::Chromosome>();
    ax_sorted(desc::<E::Chromosome>(), rated(&e, s));
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies (#[trigger] z[i]).fitness.v() >= (#[trigger] z[j]).fitness.v() by { assert(le_o(desc::<E::Chromosome>()(z[i], z[j]))); }
}
impl<TE: Evaluation, TS: Selection, TC: Crossover, TM: Mutation, TR: Reinsertion> GeneticAlgorithm<TE, TS, TC, TM, TR> {
    // the configuration can run with a population of n
    pub open spec fn ok(&self, n: nat) -> bool {
        let rate = self.reinsertion.r_rate();
        rate >= 0real && self.selection.s_ok(rate) && part(n, rate) <= usize::MAX && self.reinsertion.r_ok(part(n, rate) as nat, n) }
    pub open spec fn step(&self, r: StdRng, p: Seq<Individual<TE::Chromosome>>, n: nat, c: <TE::Chromosome as Chromosome>::Context) -> (Seq<Individual<TE::Chromosome>>, StdRng) {
        let o1 = self.selection.sel::<TE::Chromosome>(r, p, self.reinsertion.r_rate(), c);
        let o2 = mixed::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, o1.1, o1.0, 0, c);
        self.reinsertion.rein::<TE::Chromosome>(o2.1, p, ranked(self.evaluation, o2.0), n, c) }
    // the population after k generations
    pub open spec fn pop(&self, seed: u64, n: nat, c: <TE::Chromosome as Chromosome>::Context, k: nat) -> (Seq<Individual<TE::Chromosome>>, StdRng) decreases k {
        if k == 0 { let p = freshes::<TE::Chromosome>(r_seed(seed), n, c); (ranked(self.evaluation, p.0), p.1) }
        else { let q = self.pop(seed, n, c, (k - 1) as nat); self.step(q.1, q.0, n, c) } }
    pub open spec fn hall(&self, seed: u64, n: nat, h: nat, c: <TE::Chromosome as Chromosome>::Context, k: nat) -> Seq<Individual<TE::Chromosome>> {
        self.pop(seed, n, c, k).0.take(if h <= n { h as int } else { n as int }) }
/*@fn juno/src/genetics/algorithm.rs GeneticAlgorithm::new
ret: r
spec:
    ensures r.evaluation == evaluation, r.selection == selection, r.crossover == crossover, r.mutation == mutation, r.reinsertion == reinsertion,
@*/
/*@fn juno/src/genetics/algorithm.rs GeneticAlgorithm::evaluate_and_sort_by_fitness_desc
spec:
    ensures final(population)@ == ranked(self.evaluation, old(population)@), final(population)@.len() == old(population)@.len(), ordered(final(population)@),
head:
    proof { lemma_desc::<TE::Chromosome>(); lemma_ranked(self.evaluation, population@); assert(agrees(Individual::<TE::Chromosome>::fitness_desc, desc::<TE::Chromosome>())); }
@*/
/*@fn juno/src/genetics/algorithm.rs GeneticAlgorithm::run_generation
spec:
    requires self.ok(population_size as nat), population_size >= 1, old(parents)@.len() == population_size, ordered(old(parents)@), old(offsprings)@.len() == 0,
    ensures (final(offsprings)@, *final(rng)) == self.step(*old(rng), old(parents)@, population_size as nat, *ctx), final(offsprings)@.len() == population_size, ordered(final(offsprings)@),
        final(parents)@ == old(parents)@,
head:
    let ghost r0 = *rng; let ghost p0 = parents@; let ghost rate = self.reinsertion.r_rate();
    let ghost o1 = self.selection.sel::<TE::Chromosome>(r0, p0, rate, *ctx);
    proof { lemma_mixed_len::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, o1.1, o1.0, 0, *ctx); lemma_part(p0.len(), rate); }
loop 0 inv:
    invariant_except_break e_0 == offsprings@.len(), st_0 == 2, 0 <= i_0 <= e_0,
        mixed::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, *rng, offsprings@, i_0 as nat, *ctx) == mixed::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, o1.1, o1.0, 0, *ctx),
    invariant parents@ == p0,
    ensures (offsprings@, *rng) == mixed::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, o1.1, o1.0, 0, *ctx),
    decreases e_0 - i_0
loop 0 head:
    let ghost (s1, r1) = (offsprings@, *rng);
loop 0 tail:
    proof {
        let j = if i == s1.len() - 1 { 0int } else { i as int + 1 };
        let y = self.crossover.crossed::<TE::Chromosome>(r1, s1[i as int].chromosome, s1[j].chromosome);
        let a = self.mutation.mutated::<TE::Chromosome>(y.1, y.0.0, *ctx);
        let b = self.mutation.mutated::<TE::Chromosome>(a.1, y.0.1, *ctx);
        assert(*rng == b.1);
        assert(offsprings@ =~= s1.update(i as int, with(s1[i as int], a.0)).update(j, with(s1[j], b.0)));
        assert(mixed::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, r1, s1, i as nat, *ctx) == mixed::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, *rng, offsprings@, (i + 2) as nat, *ctx));
        assert(i_0 == i + 2 || i_0 == offsprings@.len() && i + 2 > i_0);
        assert(mixed::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, *rng, offsprings@, offsprings@.len(), *ctx) == (offsprings@, *rng));
    }
@*/
/*@fn juno/src/genetics/algorithm.rs GeneticAlgorithm::evolve
ret: r
subst: rand::thread_rng().gen_range(0..u64::MAX) => any_seed()
spec:
    requires self.ok(population_size as nat), population_size >= 2, hall_of_fame_size >= 1, generations < usize::MAX,
        forall|i: usize, g: Generation<TE::Chromosome>| #[trigger] on_generation.requires((i, &g)),
    ensures seed is Some ==> r.seed == seed->0,
        r.generations@.len() == generations + 1,
        forall|k: int| 0 <= k <= generations ==> (#[trigger] r.generations@[k]).hall_of_fame@ == self.hall(r.seed, population_size as nat, hall_of_fame_size as nat, *ctx, k as nat),
        forall|k: int| 0 <= k <= generations ==> #[trigger] self.sound(r.seed, population_size as nat, *ctx, k as nat),
let parents:
    proof { assert((parents@, rng) == freshes::<TE::Chromosome>(r_seed(seed), population_size as nat, *ctx)); lemma_freshes::<TE::Chromosome>(r_seed(seed), population_size as nat, *ctx); }
let seed:
    let ghost (sd, n, h) = (seed, population_size as nat, hall_of_fame_size as nat);
loop 0 inv:
    invariant e_0 == population_size, 0 <= i_0 <= e_0, (c0_@, rng) == freshes::<TE::Chromosome>(r_seed(sd), i_0 as nat, *ctx),
    decreases e_0 - i_0
loop 1 inv:
    invariant 1 <= i_1 <= e_1 + 1, e_1 == num_generations, num_generations < usize::MAX, self.ok(n), n == population_size >= 2, h == hall_of_fame_size,
        forall|i: usize, g: Generation<TE::Chromosome>| #[trigger] on_generation.requires((i, &g)),
        (parents@, rng) == self.pop(sd, n, *ctx, (i_1 - 1) as nat), parents@.len() == n, ordered(parents@), offsprings@.len() == 0,
        generations@.len() == i_1,
        forall|k: int| 0 <= k < i_1 ==> (#[trigger] generations@[k]).hall_of_fame@ == self.hall(sd, n, h, *ctx, k as nat),
        forall|k: int| 0 <= k < i_1 ==> #[trigger] self.sound(sd, n, *ctx, k as nat),
    decreases e_1 + 1 - i_1
loop 1 head:
    proof { assert(self.sound(sd, n, *ctx, (i_1 - 2) as nat)); }
loop 1 tail:
    proof { assert((parents@, rng) == self.pop(sd, n, *ctx, (i_1 - 1) as nat)); assert(self.sound(sd, n, *ctx, (i_1 - 1) as nat)); }
loop 1 pre:
    proof { assert((parents@, rng) == self.pop(sd, n, *ctx, 0)); assert(self.sound(sd, n, *ctx, 0)); }
@*/
    pub open spec fn sound(&self, seed: u64, n: nat, c: <TE::Chromosome as Chromosome>::Context, k: nat) -> bool {
        self.pop(seed, n, c, k).0.len() == n && ordered(self.pop(seed, n, c, k).0) }
}
// every documented combination can run, with rates inside their documented ranges
pub proof fn lemma_runs<E: Evaluation, C: Crossover, M: Mutation>(e: E, x: C, m: M, el: EliteSelection, to: TournamentSelection, ge: GenerateRandomSelection,
        er: EliteReinsertion, fr: FitnessReinsertion, pr: PureReinsertion, n: nat)
    requires 2 <= n <= usize::MAX, to.wf(), er.wf(), fr.wf(), part(n, fr.selection_rate.v()) <= usize::MAX
    ensures (GeneticAlgorithm { evaluation: e, selection: el, crossover: x, mutation: m, reinsertion: er }).ok(n),
        (GeneticAlgorithm { evaluation: e, selection: el, crossover: x, mutation: m, reinsertion: pr }).ok(n),
        (GeneticAlgorithm { evaluation: e, selection: to, crossover: x, mutation: m, reinsertion: er }).ok(n),
        (GeneticAlgorithm { evaluation: e, selection: to, crossover: x, mutation: m, reinsertion: fr }).ok(n),
        (GeneticAlgorithm { evaluation: e, selection: to, crossover: x, mutation: m, reinsertion: pr }).ok(n),
        (GeneticAlgorithm { evaluation: e, selection: ge, crossover: x, mutation: m, reinsertion: pr }).ok(n),
{ lemma_part(n, er.selection_rate.v()); lemma_part(n, fr.selection_rate.v()); lemma_part(n, 1real); }
// elite reinsertion that keeps at least one parent returns nobody worse than the best parent in first place
pub proof fn lemma_keeps_best<T: Chromosome>(er: EliteReinsertion, r: StdRng, p: Seq<Individual<T>>, o: Seq<Individual<T>>, n: nat, c: T::Context)
    requires er.wf(), o.len() < n, p.len() == n, er.newcomers(o.len(), n) < n - o.len()
    ensures er.rein::<T>(r, p, o, n, c).0.len() == n, er.rein::<T>(r, p, o, n, c).0[0].fitness.v() >= p[0].fitness.v()
{
    let d = (n - o.len()) as nat; let k = er.newcomers(o.len(), n);
    lemma_part(d, er.generation_rate.v());
    let f = freshes::<T>(r, k as nat, c).0;
    lemma_freshes::<T>(r, k as nat, c);
    let s = o + p.take(d - k) + f;
    let z = sorted_seq(desc::<T>(), s);
    lemma_desc::<T>(); ax_sorted(desc::<T>(), s);
    assert(s[o.len() as int] == p[0]);
    assert(s.contains(p[0]));
    s.to_multiset_ensures(); z.to_multiset_ensures();
    assert(s.to_multiset().count(p[0]) > 0);
    assert(z.contains(p[0]));
    let i = choose|i: int| 0 <= i < z.len() && z[i] == p[0];
    if i > 0 { assert(le_o(desc::<T>()(z[0], z[i]))); }
}
impl<TE: Evaluation, TS: Selection, TC: Crossover, TM: Mutation> GeneticAlgorithm<TE, TS, TC, TM, EliteReinsertion> {
    // the best fitness never decreases
    pub proof fn lemma_elitism(&self, seed: u64, n: nat, c: <TE::Chromosome as Chromosome>::Context, k: nat)
        requires self.ok(n), n >= 2, self.reinsertion.newcomers(part(n, self.reinsertion.r_rate()) as nat, n) < n - part(n, self.reinsertion.r_rate()),
            self.sound(seed, n, c, k)
        ensures self.pop(seed, n, c, k + 1).0[0].fitness.v() >= self.pop(seed, n, c, k).0[0].fitness.v()
    {
        let q = self.pop(seed, n, c, k);
        let o1 = self.selection.sel::<TE::Chromosome>(q.1, q.0, self.reinsertion.r_rate(), c);
        let o2 = mixed::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, o1.1, o1.0, 0, c);
        lemma_mixed_len::<TE::Chromosome, TC, TM>(self.crossover, self.mutation, o1.1, o1.0, 0, c);
        lemma_ranked(self.evaluation, o2.0);
        self.selection.sel_len::<TE::Chromosome>(q.1, q.0, self.reinsertion.r_rate(), c);
        lemma_part(n, self.reinsertion.r_rate());
        lemma_keeps_best::<TE::Chromosome>(self.reinsertion, o2.1, q.0, ranked(self.evaluation, o2.0), n, c);
    }
}
}
fn main(){}

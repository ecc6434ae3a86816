// ---- selections ----
/*@struct juno/src/genetics/selection.rs EliteSelection
@*/
/*@struct juno/src/genetics/selection.rs TournamentSelection
@*/
/*@struct juno/src/genetics/selection.rs GenerateRandomSelection
@*/
impl EliteSelection {
/*@fn juno/src/genetics/selection.rs EliteSelection::new
ret: r
spec:
    ensures r.shuffle == shuffle,
@*/
}
impl Selection for EliteSelection {
    open spec fn s_ok(&self, rate: real) -> bool { rate <= 1real }
    // exactly the best share of the parents
    open spec fn sel<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, rate: real, c: T::Context) -> (Seq<Individual<T>>, StdRng) {
        let best = p.take(part(p.len(), rate));
        if self.shuffle { r_shuffle(r, best) } else { (best, r) } }
    proof fn sel_len<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, rate: real, c: T::Context) { lemma_part(p.len(), rate); }
/*@fn juno/src/genetics/selection.rs EliteSelection::Selection::select
flag: novis
head:
    proof { lemma_part(parents@.len(), rate.v()); }
let count:
    assert(count == part(parents@.len(), rate.v()));
    assert(parents@.subrange(0, count as int) =~= parents@.take(count as int));
    assert(offsprings@ + parents@.take(count as int) =~= parents@.take(count as int));
@*/
}
pub proof fn lemma_part(n: nat, rate: real) requires rate >= 0real ensures part(n, rate) >= 0, rate <= 1real ==> part(n, rate) <= n, rate < 1real && n > 0 ==> part(n, rate) < n, rate >= 1real ==> part(n, rate) >= n, rate == 1real ==> part(n, rate) == n
{
    let x = n as real * rate;
    assert(x >= 0real) by(nonlinear_arith) requires rate >= 0real, n as real >= 0real, x == n as real * rate;
    assert(rate <= 1real ==> x <= n as real) by(nonlinear_arith) requires rate >= 0real, n as real >= 0real, x == n as real * rate;
    assert(rate >= 1real ==> x >= n as real) by(nonlinear_arith) requires rate >= 0real, n as real >= 0real, x == n as real * rate;
    assert(rate < 1real && n > 0 ==> x < n as real) by(nonlinear_arith) requires rate >= 0real, n as real >= 0real, x == n as real * rate;
}
// the members of a group
pub open spec fn members<T>(p: Seq<T>, g: Seq<int>) -> Seq<T> { Seq::new(g.len(), |i: int| p[g[i]]) }
pub open spec fn contest(n: nat, size_rate: real) -> nat { let k = part(n, size_rate); if k >= 1 { k as nat } else { 1 } }
pub open spec fn winner<T: Chromosome>(r: StdRng, p: Seq<Individual<T>>, k: nat) -> (Individual<T>, StdRng) {
    (first_min(desc::<T>(), members(p, r_choose(r, p.len(), k).0)), r_choose(r, p.len(), k).1) }
pub open spec fn winners<T: Chromosome>(r: StdRng, p: Seq<Individual<T>>, k: nat, n: nat) -> (Seq<Individual<T>>, StdRng) decreases n {
    if n == 0 { (Seq::empty(), r) } else { let w = winners(r, p, k, (n - 1) as nat); let q = winner(w.1, p, k); (w.0.push(q.0), q.1) } }
// each winner is a parent, the fittest of a random group of k distinct parents
pub proof fn lemma_winners<T: Chromosome>(r: StdRng, p: Seq<Individual<T>>, k: nat, n: nat)
    requires p.len() > 0, k >= 1
    ensures winners(r, p, k, n).0.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] is_winner(winners(r, p, k, n).0[i], p, k)
    decreases n
{
    if n > 0 {
        lemma_winners(r, p, k, (n - 1) as nat);
        let s = winners(r, p, k, (n - 1) as nat).1; let g = r_choose(s, p.len(), k).0; let m = members(p, g);
        lemma_desc::<T>();
        assert(group(g, p.len(), k));
        lemma_first_min(desc::<T>(), m);
        let w = winner(s, p, k).0;
        let i = choose|i: int| 0 <= i < m.len() && m[i] == w;
        assert(p[g[i]] == w);
        assert forall|j: int| 0 <= j < g.len() implies w.fitness.v() >= p[#[trigger] g[j]].fitness.v() by { assert(m[j] == p[g[j]]); assert(le_o(desc::<T>()(w, m[j]))); }
        assert(wins(w, p, g)); assert(is_winner(w, p, k));
        assert forall|j: int| 0 <= j < n implies #[trigger] is_winner(winners(r, p, k, n).0[j], p, k) by { if j < n - 1 { assert(winners(r, p, k, n).0[j] == winners(r, p, k, (n - 1) as nat).0[j]); } }
    }
}
pub open spec fn wins<T: Chromosome>(w: Individual<T>, p: Seq<Individual<T>>, g: Seq<int>) -> bool {
    (exists|i: int| 0 <= i < g.len() && p[#[trigger] g[i]] == w) && forall|j: int| 0 <= j < g.len() ==> w.fitness.v() >= p[#[trigger] g[j]].fitness.v() }
pub open spec fn is_winner<T: Chromosome>(w: Individual<T>, p: Seq<Individual<T>>, k: nat) -> bool { exists|g: Seq<int>| #[trigger] group(g, p.len(), k) && wins(w, p, g) }
impl TournamentSelection {
    pub open spec fn wf(&self) -> bool { 0real < self.tournament_size_rate.v() < 1real && self.allow_winner_compete_next_tournament }
/*@fn juno/src/genetics/selection.rs TournamentSelection::new
ret: r
spec:
    requires 0real < tournament_size_rate.v() < 1real, allow_winner_compete_next_tournament,
    ensures r.wf(), r.tournament_size_rate == tournament_size_rate,
@*/
/*@fn juno/src/genetics/selection.rs TournamentSelection::Default::default
ret: r
spec:
    ensures r.wf(),
@*/
}
impl Selection for TournamentSelection {
    open spec fn s_ok(&self, rate: real) -> bool { self.wf() }
    open spec fn sel<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, rate: real, c: T::Context) -> (Seq<Individual<T>>, StdRng) {
        winners(r, p, contest(p.len(), self.tournament_size_rate.v()), part(p.len(), rate) as nat) }
    proof fn sel_len<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, rate: real, c: T::Context) { lemma_part(p.len(), rate); lemma_part(p.len(), self.tournament_size_rate.v()); lemma_winners(r, p, contest(p.len(), self.tournament_size_rate.v()), part(p.len(), rate) as nat); }
/*@fn juno/src/genetics/selection.rs TournamentSelection::Selection::select
flag: novis
spec:
    ensures forall|i: int| 0 <= i < final(offsprings)@.len() ==> #[trigger] is_winner(final(offsprings)@[i], parents@, contest(parents@.len(), self.tournament_size_rate.v())),
head:
    proof { lemma_part(parents@.len(), rate.v()); lemma_part(parents@.len(), self.tournament_size_rate.v()); lemma_desc::<T>(); }
    let ghost r0 = *rng;
    let ghost k = contest(parents@.len(), self.tournament_size_rate.v());
loop 0 inv:
    invariant e_0 == part(parents@.len(), rate.v()), 0 <= i_0 <= e_0, k == contest(parents@.len(), self.tournament_size_rate.v()), tournament_size == k, parents@.len() > 0,
        (offsprings@, *rng) == winners(r0, parents@, k, i_0 as nat),
    decreases e_0 - i_0
loop 0 head:
    let ghost s0 = *rng;
let winner:
    proof {
        let g = r_choose(s0, parents@.len(), k).0;
        assert(group(g, parents@.len(), k));
        let m = members(parents@, g);
        assert(derefs(tournament@) =~= m);
        assert(*winner == first_min(desc::<T>(), m));
    }
loop 0 post:
    proof { lemma_winners(r0, parents@, k, e_0 as nat); }
closure 0:
    |$P0: &&Individual<T>, $P1: &&Individual<T>| -> (o: Ordering)
        ensures o == desc::<T>()(**$P0, **$P1)
@*/
}
impl Selection for GenerateRandomSelection {
    open spec fn s_ok(&self, rate: real) -> bool { rate == 1real }
    open spec fn sel<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, rate: real, c: T::Context) -> (Seq<Individual<T>>, StdRng) {
        freshes::<T>(r, part(p.len(), rate) as nat, c) }
    proof fn sel_len<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, rate: real, c: T::Context) { lemma_part(p.len(), rate); lemma_freshes::<T>(r, part(p.len(), rate) as nat, c); }
/*@fn juno/src/genetics/selection.rs GenerateRandomSelection::Selection::select
flag: novis
head:
    proof { lemma_part(parents@.len(), rate.v()); }
    let ghost r0 = *rng;
loop 0 inv:
    invariant e_0 == part(parents@.len(), rate.v()), 0 <= i_0 <= e_0, (offsprings@, *rng) == freshes::<T>(r0, i_0 as nat, *ctx),
    decreases e_0 - i_0
loop 0 post:
    proof { lemma_freshes::<T>(r0, e_0 as nat, *ctx); }
@*/
}
// ---- reinsertions ----
/*@struct juno/src/genetics/reinsertion.rs EliteReinsertion
@*/
/*@struct juno/src/genetics/reinsertion.rs FitnessReinsertion
@*/
/*@struct juno/src/genetics/reinsertion.rs PureReinsertion
@*/
impl EliteReinsertion {
    pub open spec fn wf(&self) -> bool { 0real < self.selection_rate.v() < 1real && 0real <= self.generation_rate.v() <= 1real }
    // how many of the places the offspring leave go to newcomers
    pub open spec fn newcomers(&self, offs: nat, n: nat) -> int { part((n - offs) as nat, self.generation_rate.v()) }
/*@fn juno/src/genetics/reinsertion.rs EliteReinsertion::new
ret: r
spec:
    requires FEPS() <= selection_rate.v() < 1real, 0real <= generation_rate.v() <= 1real,
    ensures r.wf(), r.selection_rate == selection_rate, r.generation_rate == generation_rate,
head:
    proof { ax_feps(); }
@*/
/*@fn juno/src/genetics/reinsertion.rs EliteReinsertion::Default::default
ret: r
spec:
    ensures r.wf(),
@*/
}
impl Reinsertion for EliteReinsertion {
    open spec fn r_rate(&self) -> real { self.selection_rate.v() }
    open spec fn r_ok(&self, offs: nat, n: nat) -> bool { self.wf() && offs < n }
    // all offspring, the best parents and the newcomers, fittest first
    open spec fn rein<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, o: Seq<Individual<T>>, n: nat, c: T::Context) -> (Seq<Individual<T>>, StdRng) {
        let fresh = self.newcomers(o.len(), n);
        let f = freshes::<T>(r, fresh as nat, c);
        (sorted_seq(desc::<T>(), o + p.take(n - o.len() - fresh) + f.0), f.1) }
/*@fn juno/src/genetics/reinsertion.rs EliteReinsertion::Reinsertion::selection_rate
flag: novis
@*/
/*@fn juno/src/genetics/reinsertion.rs EliteReinsertion::Reinsertion::reinsert
flag: novis
head:
    proof { lemma_part((population_size - offsprings@.len()) as nat, self.generation_rate.v()); lemma_desc::<T>(); }
    let ghost r0 = *rng;
    let ghost o0 = offsprings@;
    let ghost fr = self.newcomers(o0.len(), population_size as nat);
let num_parents:
    assert(parents@.subrange(0, num_parents as int) =~= parents@.take(num_parents as int));
loop 0 pre:
    let ghost o1 = o0 + parents@.take(num_parents as int);
    proof { assert(offsprings@ =~= o1); assert(o1 + freshes::<T>(r0, 0, *ctx).0 =~= o1); }
loop 0 inv:
    invariant e_0 == fr, 0 <= i_0 <= e_0, *rng == freshes::<T>(r0, i_0 as nat, *ctx).1, offsprings@ =~= o1 + freshes::<T>(r0, i_0 as nat, *ctx).0,
    decreases e_0 - i_0
loop 0 post:
    proof { lemma_freshes::<T>(r0, fr as nat, *ctx);
        assert(offsprings@ =~= o0 + parents@.take(population_size - o0.len() - fr) + freshes::<T>(r0, fr as nat, *ctx).0);
        let z = sorted_seq(desc::<T>(), offsprings@); lemma_desc::<T>(); assert(preorder(desc::<T>())); ax_sorted(desc::<T>(), offsprings@); assert(z.len() == population_size);
        assert(ordered(z)) by { assert forall|i: int, j: int| 0 <= i < j < z.len() implies (#[trigger] z[i]).fitness.v() >= (#[trigger] z[j]).fitness.v() by { assert(le_o(desc::<T>()(z[i], z[j]))); } }
        assert(agrees(Individual::<T>::fitness_desc, desc::<T>())); }
@*/
}
// the population a fitness or pure reinsertion returns
impl FitnessReinsertion {
    pub open spec fn wf(&self) -> bool { self.selection_rate.v() > 1real }
/*@fn juno/src/genetics/reinsertion.rs FitnessReinsertion::new
ret: r
spec:
    requires selection_rate.v() > 1real,
    ensures r.wf(), r.selection_rate == selection_rate,
@*/
/*@fn juno/src/genetics/reinsertion.rs FitnessReinsertion::Default::default
ret: r
spec:
    ensures r.wf(),
@*/
}
impl Reinsertion for FitnessReinsertion {
    open spec fn r_rate(&self) -> real { self.selection_rate.v() }
    open spec fn r_ok(&self, offs: nat, n: nat) -> bool { self.wf() && offs >= n }
    open spec fn rein<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, o: Seq<Individual<T>>, n: nat, c: T::Context) -> (Seq<Individual<T>>, StdRng) { (o.take(n as int), r) }
/*@fn juno/src/genetics/reinsertion.rs FitnessReinsertion::Reinsertion::selection_rate
flag: novis
@*/
/*@fn juno/src/genetics/reinsertion.rs FitnessReinsertion::Reinsertion::reinsert
flag: novis
head:
    let ghost o0 = offsprings@;
    proof { assert(o0.take(o0.len() as int) =~= o0); }
loop 0 inv:
    invariant e_0 == o0.len() - population_size, 0 <= i_0 <= e_0, offsprings@ =~= o0.take(o0.len() - i_0),
    decreases e_0 - i_0
@*/
}
impl Reinsertion for PureReinsertion {
    open spec fn r_rate(&self) -> real { 1real }
    open spec fn r_ok(&self, offs: nat, n: nat) -> bool { offs == n }
    open spec fn rein<T: Chromosome>(&self, r: StdRng, p: Seq<Individual<T>>, o: Seq<Individual<T>>, n: nat, c: T::Context) -> (Seq<Individual<T>>, StdRng) { (o, r) }
/*@fn juno/src/genetics/reinsertion.rs PureReinsertion::Reinsertion::selection_rate
flag: novis
@*/
/*@fn juno/src/genetics/reinsertion.rs PureReinsertion::Reinsertion::reinsert
flag: novis
@*/
}

// ==== juno/src/indicators: moving averages ====
pub mod mam { use super::*;
broadcast use fl_axioms;
// ---- definitions on the whole price history ----
pub open spec fn ema_of(h: FS, a: real) -> real decreases h.len() {
    if h.len() == 0 { 0real } else if h.len() == 1 { h[0].v() } else { (h.last().v() - ema_of(h.drop_last(), a)) * a + ema_of(h.drop_last(), a) } }
pub open spec fn std_a(n: int) -> real { 2real / (n + 1) as real }
pub open spec fn sma_of(h: FS, n: int) -> real { mean(tail_n(h, n)) }
// the mean of the first n, then smoothed
pub open spec fn ema2_of(h: FS, n: int) -> real decreases h.len() {
    if h.len() <= n || h.len() == 0 { mean(h) } else { (h.last().v() - ema2_of(h.drop_last(), n)) * std_a(n) + ema2_of(h.drop_last(), n) } }
pub open spec fn smma_of(h: FS, n: int) -> real decreases h.len() {
    if h.len() <= n || h.len() == 0 { mean(h) } else { (smma_of(h.drop_last(), n) * (n as real - 1real) + h.last().v()) / n as real } }
// the last n prices, zeros standing in for those not seen yet
pub open spec fn zeros(n: int) -> FS { Seq::new(n as nat, |i: int| mk(0real)) }
pub open spec fn window(h: FS, n: int) -> FS { tail_n(zeros(n) + h, n) }
pub open spec fn ring(i: int, j: int, n: int) -> int { if i + j < n { i + j } else { i + j - n } }
pub open spec fn ring_is(buf: FS, i: int, w: FS) -> bool {
    buf.len() == w.len() && forall|j: int| 0 <= j < w.len() ==> #[trigger] w[j] == buf[ring(i, j, w.len() as int)] }
pub proof fn lemma_zeros(n: int) requires n >= 0 ensures fsum(zeros(n)) == 0real decreases n
{ if n > 0 { assert(zeros(n).drop_last() =~= zeros(n - 1)); lemma_zeros(n - 1); } }
pub proof fn lemma_window_push(h: FS, p: Fl, n: int)
    requires n > 0
    ensures window(p_upd(h, p), n) == window(h, n).subrange(1, n).push(p), window(h, n).len() == n,
        fsum(window(p_upd(h, p), n)) == fsum(window(h, n)) - window(h, n)[0].v() + p.v(),
{
    let w = window(h, n);
    assert(window(p_upd(h, p), n) =~= w.subrange(1, n).push(p));
    lemma_fsum_first(w); lemma_fsum_push(w.subrange(1, n), p);
}
pub proof fn lemma_ring_push(buf: FS, i: int, w: FS, p: Fl)
    requires ring_is(buf, i, w), 0 <= i < w.len()
    ensures buf[i] == w[0], ring_is(buf.update(i, p), if i + 1 == w.len() { 0 } else { i + 1 }, w.subrange(1, w.len() as int).push(p))
{
    let n = w.len() as int; let i2 = if i + 1 == n { 0 } else { i + 1 }; let w2 = w.subrange(1, n).push(p); let b2 = buf.update(i, p);
    assert(w[0] == buf[ring(i, 0, n)]);
    assert forall|j: int| 0 <= j < w2.len() implies #[trigger] w2[j] == b2[ring(i2, j, n)] by {
        if j < n - 1 { assert(w2[j] == w[j + 1]); assert(w[j + 1] == buf[ring(i, j + 1, n)]); }
    }
}
pub open spec fn lmin(a: int, b: int) -> int { if a <= b { a } else { b } }
pub proof fn lemma_std_a(n: int) requires n > 0 ensures 0real < std_a(n) <= 1real
{ let d = (n + 1) as real; assert(0real < 2real / d <= 1real) by (nonlinear_arith) requires d >= 2real {} }
pub open spec fn seed_step(h: FS, p: Fl, n: int) -> bool {
    let g = p_upd(h, p);
    &&& g.drop_last() == h && g.last() == p && g.len() == h.len() + 1
    &&& (g.len() == n ==> fsum(window(g, n)) / n as real == mean(g)) }
pub proof fn lemma_seed(h: FS, p: Fl, n: int) requires n > 0 ensures seed_step(h, p, n)
{ let g = p_upd(h, p); assert(g.drop_last() =~= h); if g.len() == n { lemma_window_full(g, n); assert(tail_n(g, n) =~= g); } }
// what the second average of the double average is fed: the prices while the first one warms up, then the first average
pub open spec fn feed(h: FS, n: int) -> FS decreases h.len() {
    if h.len() == 0 { Seq::empty() } else {
        let a = if h.len() <= n || n == 1 { p_upd(feed(h.drop_last(), n), h.last()) } else { feed(h.drop_last(), n) };
        if h.len() >= n { p_upd(a, mk(ema_of(h, std_a(n)))) } else { a } } }
pub open spec fn dema_of(h: FS, n: int) -> real { ema_of(h, std_a(n)) * 2real - ema_of(feed(h, n), std_a(n)) }
pub open spec fn feed_step(h: FS, p: Fl, n: int) -> bool {
    let g = p_upd(h, p);
    &&& g.drop_last() == h && g.last() == p && g.len() == h.len() + 1
    &&& (g.len() >= n ==> feed(g, n).len() > 0) }
pub proof fn lemma_feed(h: FS, p: Fl, n: int) requires n > 0 ensures feed_step(h, p, n)
{ let g = p_upd(h, p); assert(g.drop_last() =~= h); }
pub open spec fn last_n(h: FS, n: int) -> FS { if h.len() <= n { h } else { tail_n(h, n) } }
pub open spec fn last_step(h: FS, p: Fl, n: int) -> bool { let g = p_upd(h, p); last_n(g, n) == bpush(last_n(h, n), n, p) && (g.len() >= n ==> last_n(g, n) == tail_n(g, n)) }
pub proof fn lemma_last_n_push(h: FS, p: Fl, n: int) requires n > 0 ensures last_step(h, p, n)
{ let g = p_upd(h, p); assert(last_n(g, n) =~= bpush(last_n(h, n), n, p)); if g.len() >= n { assert(last_n(g, n) =~= tail_n(g, n)); } }
// sizes of the moves between consecutive prices
pub open spec fn moves(h: FS) -> FS { Seq::new((if h.len() == 0 { 0 } else { h.len() - 1 }) as nat, |i: int| mk(rabs(h[i + 1].v() - h[i].v()))) }
pub open spec fn er_of(h: FS, n: int) -> real {
    let vol = fsum(tail_n(moves(h), n));
    if vol == 0real { 1real } else { rabs(h.last().v() - h[h.len() - 1 - n].v()) / vol } }
pub open spec fn sc_of(h: FS, n: int) -> real { let x = er_of(h, n) * (2real / 3real - 2real / 31real) + 2real / 31real; x * x }
pub open spec fn kama_of(h: FS, n: int) -> real decreases h.len() {
    if h.len() <= n || h.len() == 0 { h.last().v() } else { kama_of(h.drop_last(), n) + sc_of(h, n) * (h.last().v() - kama_of(h.drop_last(), n)) } }
pub open spec fn kama_step(h: FS, p: Fl, n: int) -> bool {
    let g = p_upd(h, p);
    &&& g.drop_last() == h && g.last() == p && g.len() == h.len() + 1
    &&& last_step(h, p, n)
    &&& last_n(h, n).len() == lmin(h.len() as int, n) && (h.len() > 0 ==> last_n(h, n).last() == h.last())
    &&& (h.len() > 0 ==> last_n(moves(g), n) == bpush(last_n(moves(h), n), n, mk(rabs(p.v() - h.last().v()))))
    &&& (h.len() == 0 ==> last_n(moves(g), n) == last_n(moves(h), n))
    &&& (h.len() >= n ==> last_n(h, n)[0] == g[g.len() - 1 - n] && last_n(moves(g), n) == tail_n(moves(g), n)) }
pub proof fn lemma_kama_step(h: FS, p: Fl, n: int) requires n > 0 ensures kama_step(h, p, n)
{
    let g = p_upd(h, p);
    assert(g.drop_last() =~= h);
    lemma_last_n_push(h, p, n);
    if h.len() > 0 {
        let m = mk(rabs(p.v() - h.last().v()));
        assert(moves(g) =~= p_upd(moves(h), m));
        lemma_last_n_push(moves(h), m, n);
        if h.len() == n { assert(tail_n(moves(g), n) =~= moves(g)); assert(last_n(h, n) =~= h); }
    } else { assert(moves(g) =~= moves(h)); }
}
// Gaussian weights, normalised to one
pub open spec fn alma_raw(n: int, off: real, sg: int) -> FS {
    let m = rfloor(off * (n - 1) as real) as real; let s = n as real / sg as real;
    Seq::new(n as nat, |i: int| mk(rexp((-(i as real - m)) * (i as real - m) / (2real * s * s)))) }
pub open spec fn alma_w(n: int, off: real, sg: int) -> FS { let w = alma_raw(n, off, sg); Seq::new(n as nat, |i: int| mk(w[i].v() / fsum(w))) }
pub open spec fn prods(q: FS, x: FS, w: FS) -> bool { q.len() == x.len() == w.len() && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).v() == x[i].v() * w[i].v() }
pub proof fn lemma_weighted(q: FS, x: FS, w: FS) requires prods(q, x, w) ensures fsum(q) == weighted(x, w)
{ assert(q =~= Seq::new(x.len(), |i: int| mk(x[i].v() * w[i].v()))); }
pub open spec fn weighted(x: FS, w: FS) -> real { fsum(Seq::new(x.len(), |i: int| mk(x[i].v() * w[i].v()))) }
pub proof fn lemma_fsum_pos(s: FS) requires s.len() > 0, forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() > 0real ensures fsum(s) > 0real decreases s.len()
{
    let t = s.drop_last();
    assert(s[s.len() - 1].v() > 0real);
    if s.len() > 1 { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).v() > 0real by { assert(t[i] == s[i]); } lemma_fsum_pos(t); }
}
pub proof fn lemma_fsum_div(s: FS, d: real)
    requires d != 0real
    ensures fsum(Seq::new(s.len(), |i: int| mk(s[i].v() / d))) == fsum(s) / d
    decreases s.len()
{
    let q = Seq::new(s.len(), |i: int| mk(s[i].v() / d));
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_fsum_div(t, d);
        assert(q.drop_last() =~= Seq::new(t.len(), |i: int| mk(t[i].v() / d)));
        let (a, b) = (fsum(t), s.last().v());
        assert(a / d + b / d == (a + b) / d) by (nonlinear_arith) requires d != 0real {}
    } else { assert(0real / d == 0real) by (nonlinear_arith) requires d != 0real {} }
}
pub proof fn lemma_alma_w(n: int, off: real, sg: int)
    requires n > 0, sg > 0
    ensures fsum(alma_raw(n, off, sg)) > 0real, fsum(alma_w(n, off, sg)) == 1real, alma_w(n, off, sg).len() == n,
        forall|i: int| 0 <= i < n ==> (#[trigger] alma_w(n, off, sg)[i]).v() > 0real,
        2real * (n as real / sg as real) * (n as real / sg as real) != 0real,
{
    let w = alma_raw(n, off, sg); let t = fsum(w);
    lemma_fsum_pos(w);
    lemma_fsum_div(w, t);
    assert(alma_w(n, off, sg) =~= Seq::new(w.len(), |i: int| mk(w[i].v() / t)));
    assert(t / t == 1real) by (nonlinear_arith) requires t > 0real {}
    assert forall|i: int| 0 <= i < n implies (#[trigger] alma_w(n, off, sg)[i]).v() > 0real by {
        let x = w[i].v();
        assert(x / t > 0real) by (nonlinear_arith) requires x > 0real, t > 0real {}
    }
    let (a, b) = (n as real, sg as real);
    assert(a / b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real {}
    let s = a / b;
    assert(2real * s * s > 0real) by (nonlinear_arith) requires s > 0real {}
}
pub proof fn lemma_window_full(h: FS, n: int) requires 0 < n <= h.len() ensures window(h, n) == tail_n(h, n)
{ assert(window(h, n) =~= tail_n(h, n)); }
}
pub use mam::*;
/*@struct juno/src/indicators/sma.rs SmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/sma.rs Sma
@*/
impl Sma {
    pub open spec fn n(&self) -> int { self.t1 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t1 < u32::MAX && self.t <= self.t1 && self.prices@.len() == self.t1 && self.i < self.t1 }
    pub open spec fn inv(&self, h: FS) -> bool {
        &&& self.t as int == (if h.len() < self.t1 { h.len() as int } else { self.t1 as int })
        &&& ring_is(self.prices@, self.i as int, window(h, self.n()))
        &&& self.sum.v() == fsum(window(h, self.n()))
        &&& (h.len() > 0 ==> self.value.v() == fsum(window(h, self.n())) / self.t1 as real)
        &&& (h.len() >= self.n() ==> self.value.v() == sma_of(h, self.n())) }
/*@fn juno/src/indicators/sma.rs Sma::new
ret: r
spec:
    requires 0 < params.period < u32::MAX,
    ensures r.wf(), r.n() == params.period, r.inv(Seq::empty()),
head:
    proof { let n = params.period as int; lemma_zeros(n); assert(window(Seq::empty(), n) =~= zeros(n)); }
@*/
/*@fn juno/src/indicators/sma.rs Sma::MA::maturity
ret: r
spec:
    ensures r == self.n(),
@*/
/*@fn juno/src/indicators/sma.rs Sma::MA::mature
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) ==> r == (h.len() >= self.n()),
@*/
/*@fn juno/src/indicators/sma.rs Sma::MA::update
spec:
    requires old(self).wf(),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price)),
head:
    let ghost (b0, i0, n0) = (self.prices@, self.i as int, self.n());
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies sma_step(b0, i0, n0, h, price) by {
        if h.len() + 1 >= n0 { lemma_window_full(p_upd(h, price), n0); } lemma_window_push(h, price, n0); lemma_ring_push(b0, i0, window(h, n0), price); }
        lemma_mod_self_0(n0); if i0 + 1 < n0 { lemma_small_mod((i0 + 1) as nat, n0 as nat); } }
@*/
/*@fn juno/src/indicators/sma.rs Sma::MA::value
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) && h.len() >= self.n() && self.wf() ==> r.v() == sma_of(h, self.n()),
@*/
}
pub open spec fn sma_step(b: FS, i: int, n: int, h: FS, p: Fl) -> bool {
    let w2 = window(p_upd(h, p), n);
    fsum(w2) == fsum(window(h, n)) - b[i].v() + p.v() && ring_is(b.update(i, p), if i + 1 == n { 0 } else { i + 1 }, w2) && (h.len() + 1 >= n ==> w2 == tail_n(p_upd(h, p), n)) }
// ---- exponential ----
/*@struct juno/src/indicators/ema.rs EmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/ema.rs Ema
@*/
impl EmaParams {
    pub open spec fn ok(self) -> bool { 0 < self.period < u32::MAX && match self.smoothing { Some(s) => 0real < s.v() <= 1real, None => true } }
    pub open spec fn a(self) -> real { match self.smoothing { Some(s) => s.v(), None => std_a(self.period as int) } }
}
impl Ema {
    pub open spec fn n(&self) -> int { self.t1 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t1 < u32::MAX && self.t <= self.t1 && 0real < self.a.v() <= 1real }
    pub open spec fn is(&self, p: EmaParams) -> bool { self.n() == p.period && self.a.v() == p.a() }
    pub open spec fn inv(&self, h: FS) -> bool { self.t as int == lmin(h.len() as int, self.n()) && (h.len() > 0 ==> self.value.v() == ema_of(h, self.a.v())) }
/*@fn juno/src/indicators/ema.rs Ema::new
ret: r
spec:
    requires params.ok(),
    ensures r.wf(), r.is(*params), r.inv(Seq::empty()),
head:
    proof { lemma_std_a(params.period as int); }
@*/
/*@fn juno/src/indicators/ema.rs Ema::MA::maturity
ret: r
spec:
    ensures r == self.n(),
@*/
/*@fn juno/src/indicators/ema.rs Ema::MA::mature
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) ==> r == (h.len() >= self.n()),
@*/
/*@fn juno/src/indicators/ema.rs Ema::MA::update
spec:
    requires old(self).wf(),
    ensures final(self).wf(), final(self).n() == old(self).n(), final(self).a == old(self).a,
        forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price)),
head:
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies p_upd(h, price).drop_last() == h by { assert(p_upd(h, price).drop_last() =~= h); } }
@*/
/*@fn juno/src/indicators/ema.rs Ema::MA::value
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) && h.len() > 0 ==> r.v() == ema_of(h, self.a.v()),
@*/
}
// ---- exponential, seeded with the mean ----
/*@struct juno/src/indicators/ema2.rs Ema2Params
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/ema2.rs Ema2
@*/
impl Ema2 {
    pub open spec fn n(&self) -> int { self.t1 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t1 && self.t1 + 1 < u32::MAX && self.t2 == self.t1 + 1 && self.t <= self.t2 && self.a.v() == std_a(self.n()) && self.sma.wf() && self.sma.n() == self.n() }
    pub open spec fn inv(&self, h: FS) -> bool { self.t as int == lmin(h.len() as int, self.n() + 1) && (h.len() <= self.n() ==> self.sma.inv(h)) && (h.len() >= self.n() ==> self.value.v() == ema2_of(h, self.n())) }
/*@fn juno/src/indicators/ema2.rs Ema2::new
ret: r
spec:
    requires params.period > 0, params.period + 1 < u32::MAX,
    ensures r.wf(), r.n() == params.period, r.inv(Seq::empty()),
@*/
/*@fn juno/src/indicators/ema2.rs Ema2::MA::maturity
ret: r
spec:
    ensures r == self.n(),
@*/
/*@fn juno/src/indicators/ema2.rs Ema2::MA::mature
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) ==> r == (h.len() >= self.n()),
@*/
/*@fn juno/src/indicators/ema2.rs Ema2::MA::update
spec:
    requires old(self).wf(),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price)),
head:
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies seed_step(h, price, self.n()) by { lemma_seed(h, price, self.n()); } }
@*/
/*@fn juno/src/indicators/ema2.rs Ema2::MA::value
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) && h.len() >= self.n() ==> r.v() == ema2_of(h, self.n()),
@*/
}
// ---- smoothed ----
/*@struct juno/src/indicators/smma.rs SmmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/smma.rs Smma
@*/
impl Smma {
    pub open spec fn n(&self) -> int { self.t1 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t1 && self.t1 + 1 < u32::MAX && self.t2 == self.t1 + 1 && self.t <= self.t2 && self.weight.v() == self.t1 as real && self.sma.wf() && self.sma.n() == self.n() }
    pub open spec fn inv(&self, h: FS) -> bool { self.t as int == lmin(h.len() as int, self.n() + 1) && (h.len() <= self.n() ==> self.sma.inv(h)) && (h.len() >= self.n() ==> self.value.v() == smma_of(h, self.n())) && (h.len() < self.n() ==> self.value.v() == 0real) }
/*@fn juno/src/indicators/smma.rs Smma::new
ret: r
spec:
    requires params.period > 0, params.period + 1 < u32::MAX,
    ensures r.wf(), r.n() == params.period, r.inv(Seq::empty()),
@*/
/*@fn juno/src/indicators/smma.rs Smma::MA::maturity
ret: r
spec:
    requires self.wf(),
    ensures r == self.n() + 1,
@*/
/*@fn juno/src/indicators/smma.rs Smma::MA::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|h: FS| #[trigger] self.inv(h) ==> r == (h.len() >= self.n() + 1),
@*/
/*@fn juno/src/indicators/smma.rs Smma::MA::update
spec:
    requires old(self).wf(),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price)),
head:
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies seed_step(h, price, self.n()) by { lemma_seed(h, price, self.n()); } }
@*/
/*@fn juno/src/indicators/smma.rs Smma::MA::value
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) && h.len() >= self.n() ==> r.v() == smma_of(h, self.n()),
@*/
}
// ---- double ----
/*@struct juno/src/indicators/dema.rs DemaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/dema.rs Dema
@*/
impl Dema {
    pub open spec fn n(&self) -> int { self.t1 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t1 && 2 * self.t1 < u32::MAX && self.t2 == 2 * self.t1 - 1 && self.t <= self.t2 && self.ema1.wf() && self.ema2.wf()
        && self.ema1.is(EmaParams { period: self.t1, smoothing: None }) && self.ema2.is(EmaParams { period: self.t1, smoothing: None }) }
    pub open spec fn inv(&self, h: FS) -> bool { self.t as int == lmin(h.len() as int, 2 * self.n() - 1) && self.ema1.inv(h) && self.ema2.inv(feed(h, self.n()))
        && (h.len() >= 2 * self.n() - 1 ==> self.value.v() == dema_of(h, self.n())) }
/*@fn juno/src/indicators/dema.rs Dema::new
ret: r
spec:
    requires params.period > 0, 2 * params.period < u32::MAX,
    ensures r.wf(), r.n() == params.period, r.inv(Seq::empty()),
@*/
/*@fn juno/src/indicators/dema.rs Dema::MA::maturity
ret: r
spec:
    requires self.wf(),
    ensures r == 2 * self.n() - 1,
@*/
/*@fn juno/src/indicators/dema.rs Dema::MA::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|h: FS| #[trigger] self.inv(h) ==> r == (h.len() >= 2 * self.n() - 1),
@*/
/*@fn juno/src/indicators/dema.rs Dema::MA::update
spec:
    requires old(self).wf(),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price)),
head:
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies feed_step(h, price, self.n()) by { lemma_feed(h, price, self.n()); } }
@*/
/*@fn juno/src/indicators/dema.rs Dema::MA::value
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) && h.len() >= 2 * self.n() - 1 ==> r.v() == dema_of(h, self.n()),
@*/
}
// ---- adaptive ----
/*@struct juno/src/indicators/kama.rs KamaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/kama.rs Kama
@*/
impl Kama {
    pub open spec fn n(&self) -> int { self.t1 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t1 && self.t1 + 1 < u32::MAX && self.t2 == self.t1 + 1 && self.t <= self.t2
        && self.prices.cap() == self.n() && self.diffs.cap() == self.n()
        && self.short_alpha.v() == 2real / 3real && self.long_alpha.v() == 2real / 31real }
    pub open spec fn inv(&self, h: FS) -> bool { self.t as int == lmin(h.len() as int, self.n() + 1)
        && self.prices@ == last_n(h, self.n()) && self.diffs@ == last_n(moves(h), self.n())
        && (h.len() >= self.n() ==> self.value.v() == kama_of(h, self.n())) }
/*@fn juno/src/indicators/kama.rs Kama::new
ret: r
spec:
    requires params.period > 0, params.period + 1 < u32::MAX,
    ensures r.wf(), r.n() == params.period, r.inv(Seq::empty()),
head:
    proof { assert(last_n(Seq::<Fl>::empty(), params.period as int) =~= Seq::empty()); assert(moves(Seq::<Fl>::empty()) =~= Seq::empty()); }
@*/
/*@fn juno/src/indicators/kama.rs Kama::MA::maturity
ret: r
spec:
    requires self.wf(),
    ensures r == self.n() + 1,
@*/
/*@fn juno/src/indicators/kama.rs Kama::MA::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|h: FS| #[trigger] self.inv(h) ==> r == (h.len() >= self.n() + 1),
@*/
/*@fn juno/src/indicators/kama.rs Kama::MA::update
index: prices, diffs
spec:
    requires old(self).wf(), exists|h: FS| old(self).inv(h),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price)),
head:
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies kama_step(h, price, self.n()) by { lemma_kama_step(h, price, self.n()); } }
@*/
/*@fn juno/src/indicators/kama.rs Kama::MA::value
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) && h.len() >= self.n() ==> r.v() == kama_of(h, self.n()),
@*/
}
// ---- Gaussian ----
/*@struct juno/src/indicators/alma.rs AlmaParams
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/indicators/alma.rs Alma
@*/
impl AlmaParams {
    pub open spec fn ok(self) -> bool { 0 < self.period < u32::MAX && 0real < self.offset.v() < 1real && self.sg() > 0 }
    pub open spec fn sg(self) -> int { match self.sigma { Some(s) => s as int, None => rfloor(self.period as real / (3real / 2real)) } }
    pub open spec fn w(self) -> FS { alma_w(self.period as int, self.offset.v(), self.sg()) }
}
impl Alma {
    pub open spec fn n(&self) -> int { self.t1 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t1 < u32::MAX && self.t <= self.t1 && self.prices.cap() == self.n() && self.weights@.len() == self.n() }
    pub open spec fn inv(&self, h: FS) -> bool { self.t as int == lmin(h.len() as int, self.n()) && self.prices@ == last_n(h, self.n())
        && (h.len() >= self.n() ==> self.value.v() == weighted(tail_n(h, self.n()), self.weights@)) }
/*@fn juno/src/indicators/alma.rs Alma::new
ret: r
spec:
    requires params.ok(),
    ensures r.wf(), r.n() == params.period, r.inv(Seq::empty()), r.weights@ == params.w(),
head:
    proof {
        let (n, g) = (params.period as real, params.sg() as real);
        lemma_alma_w(params.period as int, params.offset.v(), params.sg());
        assert(last_n(Seq::<Fl>::empty(), params.period as int) =~= Seq::empty());
    }
let sigma:
    proof { assert(sigma == params.sg()); }
let s:
    proof {
        let (n, g) = (params.period as real, sigma as real);
        assert(n * 1real / g == n / g);
        assert(s.v() == n / g);
        assert(2real * s.v() * s.v() != 0real);
    }
let tmp:
    proof { assert(tmp@ =~= alma_raw(params.period as int, params.offset.v(), params.sg())); }
tail:
    proof {
        assert(tmp@ =~= alma_raw(params.period as int, params.offset.v(), params.sg()));
        assert(res_.weights@ =~= params.w());
    }
@*/
/*@fn juno/src/indicators/alma.rs Alma::MA::maturity
ret: r
spec:
    ensures r == self.n(),
@*/
/*@fn juno/src/indicators/alma.rs Alma::MA::mature
ret: r
spec:
    ensures r == (self.t >= self.t1), forall|h: FS| #[trigger] self.inv(h) ==> r == (h.len() >= self.n()),
@*/
/*@fn juno/src/indicators/alma.rs Alma::MA::update
spec:
    requires old(self).wf(),
    ensures final(self).wf(), final(self).n() == old(self).n(), final(self).weights@ == old(self).weights@,
        forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price)),
head:
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies last_step(h, price, self.n()) by { lemma_last_n_push(h, price, self.n()); }
        assert forall|q: FS, x: FS, w: FS| #![trigger fsum(q), weighted(x, w)] prods(q, x, w) implies fsum(q) == weighted(x, w) by { lemma_weighted(q, x, w); } }
@*/
/*@fn juno/src/indicators/alma.rs Alma::MA::value
ret: r
spec:
    ensures forall|h: FS| #[trigger] self.inv(h) && h.len() >= self.n() ==> r.v() == weighted(tail_n(h, self.n()), self.weights@),
@*/
}

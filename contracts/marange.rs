// ==== every average (the double one excepted) stays between the lowest and the highest price seen ====
pub mod mar { use super::*;
broadcast use fl_axioms;
proof fn sub_last(h: FS, lo: real, hi: real) requires within(h, lo, hi), h.len() > 0 ensures within(h.drop_last(), lo, hi), lo <= h.last().v() <= hi
{ lemma_within_sub(h, 0, h.len() - 1, lo, hi); assert(h.drop_last() =~= h.subrange(0, h.len() - 1)); assert(lo <= h[h.len() - 1].v() <= hi); }
pub proof fn sma_range(h: FS, n: int, lo: real, hi: real) requires within(h, lo, hi), 0 < n <= h.len() ensures lo <= sma_of(h, n) <= hi
{ lemma_within_sub(h, h.len() - n, h.len() as int, lo, hi); lemma_mean_within(tail_n(h, n), lo, hi); }
pub proof fn ema_range(h: FS, a: real, lo: real, hi: real) requires within(h, lo, hi), h.len() > 0, 0real <= a <= 1real ensures lo <= ema_of(h, a) <= hi decreases h.len()
{
    sub_last(h, lo, hi);
    if h.len() > 1 { ema_range(h.drop_last(), a, lo, hi); lemma_convex(a, h.last().v(), ema_of(h.drop_last(), a), lo, hi); }
    else { assert(h[0] == h.last()); }
}
pub proof fn ema2_range(h: FS, n: int, lo: real, hi: real) requires within(h, lo, hi), h.len() > 0, n > 0 ensures lo <= ema2_of(h, n) <= hi decreases h.len()
{
    sub_last(h, lo, hi);
    if h.len() > n { ema2_range(h.drop_last(), n, lo, hi); lemma_std_a(n); lemma_convex(std_a(n), h.last().v(), ema2_of(h.drop_last(), n), lo, hi); }
    else { lemma_mean_within(h, lo, hi); }
}
pub proof fn smma_range(h: FS, n: int, lo: real, hi: real) requires within(h, lo, hi), h.len() > 0, n > 0 ensures lo <= smma_of(h, n) <= hi decreases h.len()
{
    sub_last(h, lo, hi);
    if h.len() > n {
        smma_range(h.drop_last(), n, lo, hi);
        let (s, p, k) = (smma_of(h.drop_last(), n), h.last().v(), n as real);
        assert(lo <= (s * (k - 1real) + p) / k <= hi) by (nonlinear_arith) requires lo <= s <= hi, lo <= p <= hi, k >= 1real {}
    } else { lemma_mean_within(h, lo, hi); }
}
proof fn moves_nonneg(h: FS) ensures forall|i: int| 0 <= i < moves(h).len() ==> (#[trigger] moves(h)[i]).v() >= 0real {}
proof fn fsum_nonneg(s: FS) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() >= 0real ensures fsum(s) >= 0real decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).v() >= 0real by { assert(t[i] == s[i]); } fsum_nonneg(t); assert(s[s.len() - 1].v() >= 0real); } }
// the price travelled at least as far as it moved away
proof fn triangle(h: FS, n: int)
    requires 0 <= n < h.len()
    ensures rabs(h.last().v() - h[h.len() - 1 - n].v()) <= fsum(tail_n(moves(h), n))
    decreases n
{
    let m = moves(h);
    if n == 0 { assert(tail_n(m, 0) =~= Seq::empty()); }
    else {
        let g = h.drop_last();
        triangle(g, n - 1);
        assert(tail_n(m, n).drop_last() =~= tail_n(moves(g), n - 1));
        assert(tail_n(m, n).last() == mk(rabs(h[h.len() - 1].v() - h[h.len() - 2].v())));
    }
}
proof fn sc_range(h: FS, n: int) requires 0 < n < h.len() ensures 0real <= sc_of(h, n) <= 1real
{
    triangle(h, n);
    let t = tail_n(moves(h), n);
    moves_nonneg(h);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).v() >= 0real by { assert(t[i] == moves(h)[moves(h).len() - n + i]); }
    fsum_nonneg(t);
    let (vol, d) = (fsum(t), rabs(h.last().v() - h[h.len() - 1 - n].v()));
    if vol != 0real { assert(0real <= d / vol <= 1real) by (nonlinear_arith) requires 0real <= d <= vol, vol > 0real {} }
    let e = er_of(h, n);
    assert(0real <= e <= 1real);
    let x = e * (2real / 3real - 2real / 31real) + 2real / 31real;
    let k = 2real / 3real - 2real / 31real;
    assert(0real <= k <= 1real - 2real / 31real);
    assert(0real <= e * k <= k) by (nonlinear_arith) requires 0real <= e <= 1real, k >= 0real {}
    assert(0real <= x <= 1real);
    assert(0real <= x * x <= 1real) by (nonlinear_arith) requires 0real <= x <= 1real {}
}
pub proof fn kama_range(h: FS, n: int, lo: real, hi: real) requires within(h, lo, hi), h.len() > 0, n > 0 ensures lo <= kama_of(h, n) <= hi decreases h.len()
{
    sub_last(h, lo, hi);
    if h.len() > n {
        kama_range(h.drop_last(), n, lo, hi); sc_range(h, n);
        let (k, c, p) = (kama_of(h.drop_last(), n), sc_of(h, n), h.last().v());
        lemma_convex(c, p, k, lo, hi);
        assert((p - k) * c == c * (p - k)) by (nonlinear_arith) {}
    }
}
proof fn weighted_range(x: FS, w: FS, lo: real, hi: real)
    requires within(x, lo, hi), x.len() == w.len(), forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]).v() >= 0real
    ensures lo * fsum(w) <= weighted(x, w) <= hi * fsum(w)
    decreases x.len()
{
    if x.len() > 0 {
        let (xt, wt) = (x.drop_last(), w.drop_last());
        sub_last(x, lo, hi);
        assert forall|i: int| 0 <= i < wt.len() implies (#[trigger] wt[i]).v() >= 0real by { assert(wt[i] == w[i]); }
        weighted_range(xt, wt, lo, hi);
        let q = Seq::new(x.len(), |i: int| mk(x[i].v() * w[i].v()));
        assert(q.drop_last() =~= Seq::new(xt.len(), |i: int| mk(xt[i].v() * wt[i].v())));
        let (p, c, s) = (x.last().v(), w[w.len() - 1].v(), fsum(wt));
        assert(lo * c <= p * c <= hi * c) by (nonlinear_arith) requires lo <= p <= hi, c >= 0real {}
        assert(lo * (s + c) == lo * s + lo * c) by (nonlinear_arith) {}
        assert(hi * (s + c) == hi * s + hi * c) by (nonlinear_arith) {}
    } else {
        assert(lo * 0real == 0real) by (nonlinear_arith) {} assert(hi * 0real == 0real) by (nonlinear_arith) {}
    }
}
pub proof fn alma_range(h: FS, p: AlmaParams, lo: real, hi: real)
    requires within(h, lo, hi), p.ok(), p.period <= h.len()
    ensures lo <= weighted(tail_n(h, p.period as int), p.w()) <= hi
{
    let n = p.period as int;
    lemma_alma_w(n, p.offset.v(), p.sg());
    lemma_within_sub(h, h.len() - n, h.len() as int, lo, hi);
    assert forall|i: int| 0 <= i < p.w().len() implies (#[trigger] p.w()[i]).v() >= 0real by { assert(alma_w(n, p.offset.v(), p.sg())[i].v() > 0real); }
    weighted_range(tail_n(h, n), p.w(), lo, hi);
}
pub proof fn ma_range(p: MAParams, h: FS, lo: real, hi: real)
    requires p.ok(), !(p is Dema), h.len() >= ma_mat(p), within(h, lo, hi)
    ensures lo <= ma_def(p, h) <= hi
{
    match p {
        MAParams::Alma(q) => { alma_range(h, q, lo, hi); }
        MAParams::Ema(q) => { lemma_std_a(q.period as int); ema_range(h, q.a(), lo, hi); }
        MAParams::Ema2(q) => { ema2_range(h, q.period as int, lo, hi); }
        MAParams::Kama(q) => { kama_range(h, q.period as int, lo, hi); }
        MAParams::Sma(q) => { sma_range(h, q.period as int, lo, hi); }
        MAParams::Smma(q) => { smma_range(h, q.period as int, lo, hi); }
        _ => {}
    }
}
}
pub use mar::*;

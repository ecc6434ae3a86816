// ==== juno/src/indicators: oscillators ====
pub mod oscm { use super::*;
broadcast use fl_axioms;
pub open spec fn one(h: FS, p: Fl) -> bool { let g = p_upd(h, p); g.drop_last() == h && g.last() == p && g.len() == h.len() + 1 }
pub proof fn lemma_one(h: FS, p: Fl) ensures one(h, p) { assert(p_upd(h, p).drop_last() =~= h); }
pub open spec fn nonneg(s: FS) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).v() >= 0real }
pub proof fn lemma_fsum_nonneg(s: FS) requires nonneg(s) ensures fsum(s) >= 0real decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).v() >= 0real by { assert(t[i] == s[i]); } lemma_fsum_nonneg(t); assert(s[s.len() - 1].v() >= 0real); } }
pub proof fn lemma_smma_nonneg(s: FS, n: int) requires nonneg(s), s.len() > 0, n > 0 ensures smma_of(s, n) >= 0real decreases s.len()
{
    let t = s.drop_last();
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]).v() >= 0real by { assert(t[i] == s[i]); }
    if s.len() > n {
        lemma_smma_nonneg(t, n);
        let (a, p, k) = (smma_of(t, n), s.last().v(), n as real);
        assert(s[s.len() - 1].v() >= 0real);
        assert((a * (k - 1real) + p) / k >= 0real) by (nonlinear_arith) requires a >= 0real, p >= 0real, k >= 1real {}
    } else {
        lemma_fsum_nonneg(s);
        let (a, k) = (fsum(s), s.len() as real);
        assert(a / k >= 0real) by (nonlinear_arith) requires a >= 0real, k >= 1real {}
    }
}
// ---- relative strength ----
pub open spec fn pos(x: real) -> real { if x > 0real { x } else { 0real } }
// rises and falls between consecutive prices
pub open spec fn ups(h: FS) -> FS { Seq::new((if h.len() == 0 { 0 } else { h.len() - 1 }) as nat, |i: int| mk(pos(h[i + 1].v() - h[i].v()))) }
pub open spec fn downs(h: FS) -> FS { Seq::new((if h.len() == 0 { 0 } else { h.len() - 1 }) as nat, |i: int| mk(pos(h[i].v() - h[i + 1].v()))) }
pub open spec fn rsi_of(h: FS, n: int) -> real {
    let (u, d) = (smma_of(ups(h), n), smma_of(downs(h), n));
    if d == 0real { if u == 0real { 0real } else { 100real } } else { 100real - 100real / (1real + u / d) } }
pub proof fn lemma_rsi_range(h: FS, n: int) requires n > 0, h.len() > 1 ensures 0real <= rsi_of(h, n) <= 100real, smma_of(ups(h), n) >= 0real, smma_of(downs(h), n) >= 0real
{
    lemma_smma_nonneg(ups(h), n); lemma_smma_nonneg(downs(h), n);
    let (u, d) = (smma_of(ups(h), n), smma_of(downs(h), n));
    if d != 0real {
        let r = u / d;
        assert(r >= 0real) by (nonlinear_arith) requires u >= 0real, d > 0real, r == u / d {}
        assert(0real <= 100real / (1real + r) <= 100real) by (nonlinear_arith) requires r >= 0real {}
    }
}
pub open spec fn rsi_step(h: FS, p: Fl, n: int) -> bool {
    let g = p_upd(h, p);
    &&& one(h, p)
    &&& (h.len() > 0 ==> ups(g) == p_upd(ups(h), mk(pos(p.v() - h.last().v()))) && downs(g) == p_upd(downs(h), mk(pos(h.last().v() - p.v()))))
    &&& (h.len() == 0 ==> ups(g) == ups(h) && downs(g) == downs(h))
    &&& (h.len() > 0 ==> 0real <= rsi_of(g, n) <= 100real && smma_of(ups(g), n) >= 0real && smma_of(downs(g), n) >= 0real) }
pub proof fn lemma_rsi_step(h: FS, p: Fl, n: int) requires n > 0 ensures rsi_step(h, p, n)
{
    let g = p_upd(h, p); lemma_one(h, p);
    if h.len() > 0 {
        assert(ups(g) =~= p_upd(ups(h), mk(pos(p.v() - h.last().v()))));
        assert(downs(g) =~= p_upd(downs(h), mk(pos(h.last().v() - p.v()))));
        lemma_rsi_range(g, n);
    } else { assert(ups(g) =~= ups(h)); assert(downs(g) =~= downs(h)); }
}
pub proof fn lemma_rs(u: real, d: real) requires u >= 0real, d > 0real ensures u / d >= 0real { assert(u / d >= 0real) by (nonlinear_arith) requires u >= 0real, d > 0real {} }
// ---- directional movement ----
pub open spec fn dir_up(ph: real, pl: real, h: real, l: real) -> real { if h - ph > 0real && h - ph >= pl - l { h - ph } else { 0real } }
pub open spec fn dir_down(ph: real, pl: real, h: real, l: real) -> real { if pl - l > 0real && pl - l >= h - ph { pl - l } else { 0real } }
pub open spec fn per(n: int) -> real { (n - 1) as real / n as real }
// the sum over the first n candles, then decaying
pub open spec fn dm_up(hs: FS, ls: FS, n: int) -> real decreases hs.len() {
    if hs.len() <= 1 { 0real } else {
        let k = hs.len(); let d = dir_up(hs[k - 2].v(), ls[k - 2].v(), hs[k - 1].v(), ls[k - 1].v()); let r = dm_up(hs.drop_last(), ls.drop_last(), n);
        if k <= n { r + d } else { r * per(n) + d } } }
pub open spec fn dm_down(hs: FS, ls: FS, n: int) -> real decreases hs.len() {
    if hs.len() <= 1 { 0real } else {
        let k = hs.len(); let d = dir_down(hs[k - 2].v(), ls[k - 2].v(), hs[k - 1].v(), ls[k - 1].v()); let r = dm_down(hs.drop_last(), ls.drop_last(), n);
        if k <= n { r + d } else { r * per(n) + d } } }
pub proof fn lemma_per(n: int) requires n > 0 ensures 0real <= per(n) <= 1real
{ let (a, b) = ((n - 1) as real, n as real); assert(0real <= a / b <= 1real) by (nonlinear_arith) requires b >= 1real, a == b - 1real {} }
pub proof fn lemma_dm(hs: FS, ls: FS, n: int) requires n > 0 ensures dm_up(hs, ls, n) >= 0real, dm_down(hs, ls, n) >= 0real decreases hs.len()
{
    if hs.len() > 1 {
        lemma_dm(hs.drop_last(), ls.drop_last(), n); lemma_per(n);
        let (a, b, c) = (dm_up(hs.drop_last(), ls.drop_last(), n), dm_down(hs.drop_last(), ls.drop_last(), n), per(n));
        assert(a * c >= 0real && b * c >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real, c >= 0real {}
    }
}
pub open spec fn two(hs: FS, ls: FS, h: Fl, l: Fl) -> bool {
    one(hs, h) && one(ls, l) && (hs.len() == ls.len() && hs.len() > 0 ==> p_upd(hs, h)[hs.len() - 1] == hs.last() && p_upd(ls, l)[ls.len() - 1] == ls.last()) }
pub proof fn lemma_two(hs: FS, ls: FS, h: Fl, l: Fl) ensures two(hs, ls, h, l) { lemma_one(hs, h); lemma_one(ls, l); }
// ---- true range, directional indicator ----
pub open spec fn tr_of(pc: real, h: real, l: real) -> real { rmax(h - l, rmax(rabs(h - pc), rabs(l - pc))) }
pub open spec fn atr_of(hs: FS, ls: FS, cs: FS, n: int) -> real decreases hs.len() {
    if hs.len() <= 1 { 0real } else {
        let k = hs.len(); let d = tr_of(cs[k - 2].v(), hs[k - 1].v(), ls[k - 1].v()); let r = atr_of(hs.drop_last(), ls.drop_last(), cs.drop_last(), n);
        if k <= n { r + d } else { r * per(n) + d } } }
pub open spec fn share(a: real, b: real) -> real { if b > 0real { 100real * a / b } else { 0real } }
pub open spec fn di_up(hs: FS, ls: FS, cs: FS, n: int) -> real { share(dm_up(hs, ls, n), atr_of(hs, ls, cs, n)) }
pub open spec fn di_down(hs: FS, ls: FS, cs: FS, n: int) -> real { share(dm_down(hs, ls, n), atr_of(hs, ls, cs, n)) }
pub open spec fn inside(hs: FS, ls: FS, cs: FS) -> bool { hs.len() == ls.len() == cs.len() && forall|i: int| 0 <= i < cs.len() ==> ls[i].v() <= (#[trigger] cs[i]).v() <= hs[i].v() }
pub proof fn lemma_inside_drop(hs: FS, ls: FS, cs: FS) requires inside(hs, ls, cs), hs.len() > 0 ensures inside(hs.drop_last(), ls.drop_last(), cs.drop_last())
{ let t = cs.drop_last(); assert forall|i: int| 0 <= i < t.len() implies ls.drop_last()[i].v() <= (#[trigger] t[i]).v() <= hs.drop_last()[i].v() by { assert(t[i] == cs[i]); } }
pub proof fn lemma_share(a: real, b: real) requires 0real <= a ensures 0real <= share(a, b), a <= b ==> share(a, b) <= 100real
{ if b > 0real { assert(100real * a / b >= 0real) by (nonlinear_arith) requires a >= 0real, b > 0real {}
    if a <= b { assert(100real * a / b <= 100real) by (nonlinear_arith) requires a <= b, b > 0real {} } } }
// movements never exceed the range, so the indicators stay within 0 to 100
pub proof fn lemma_di_range(hs: FS, ls: FS, cs: FS, n: int)
    requires n > 0, inside(hs, ls, cs)
    ensures dm_up(hs, ls, n) <= atr_of(hs, ls, cs, n), dm_down(hs, ls, n) <= atr_of(hs, ls, cs, n), 0real <= di_up(hs, ls, cs, n) <= 100real, 0real <= di_down(hs, ls, cs, n) <= 100real
    decreases hs.len()
{
    lemma_dm(hs, ls, n);
    if hs.len() > 1 {
        lemma_inside_drop(hs, ls, cs); lemma_di_range(hs.drop_last(), ls.drop_last(), cs.drop_last(), n); lemma_per(n);
        let k = hs.len();
        assert(ls[k - 2].v() <= cs[k - 2].v() <= hs[k - 2].v()); assert(ls[k - 1].v() <= cs[k - 1].v() <= hs[k - 1].v());
        let (a, b, r, c) = (dm_up(hs.drop_last(), ls.drop_last(), n), dm_down(hs.drop_last(), ls.drop_last(), n), atr_of(hs.drop_last(), ls.drop_last(), cs.drop_last(), n), per(n));
        assert(a * c <= r * c && b * c <= r * c) by (nonlinear_arith) requires a <= r, b <= r, c >= 0real {}
    }
    lemma_share(dm_up(hs, ls, n), atr_of(hs, ls, cs, n)); lemma_share(dm_down(hs, ls, n), atr_of(hs, ls, cs, n));
}
// ---- directional index and its average ----
pub open spec fn dx_of(hs: FS, ls: FS, n: int) -> real {
    let (a, b) = (dm_up(hs, ls, n), dm_down(hs, ls, n));
    if a + b > 0real { rabs(a - b) / (a + b) * 100real } else { 0real } }
pub proof fn lemma_dx_range(hs: FS, ls: FS, n: int) requires n > 0 ensures 0real <= dx_of(hs, ls, n) <= 100real
{
    lemma_dm(hs, ls, n);
    let (a, b) = (dm_up(hs, ls, n), dm_down(hs, ls, n));
    if a + b > 0real { let (d, s) = (rabs(a - b), a + b);
        assert(0real <= d / s <= 1real) by (nonlinear_arith) requires 0real <= d <= s, s > 0real {} }
}
pub open spec fn dxs(hs: FS, ls: FS, n: int) -> FS decreases hs.len() {
    if hs.len() < n || hs.len() == 0 { Seq::empty() } else { p_upd(dxs(hs.drop_last(), ls.drop_last(), n), mk(dx_of(hs, ls, n))) } }
pub proof fn lemma_dxs(hs: FS, ls: FS, n: int) requires n > 0 ensures within(dxs(hs, ls, n), 0real, 100real), dxs(hs, ls, n).len() == (if hs.len() < n { 0 } else { hs.len() - n + 1 }) decreases hs.len()
{ if hs.len() >= n { lemma_dxs(hs.drop_last(), ls.drop_last(), n); lemma_dx_range(hs, ls, n); } }
pub open spec fn adx_of(hs: FS, ls: FS, n: int) -> real { smma_of(dxs(hs, ls, n), n) }
pub proof fn lemma_smma_range(h: FS, n: int, lo: real, hi: real) requires within(h, lo, hi), h.len() > 0, n > 0 ensures lo <= smma_of(h, n) <= hi decreases h.len()
{
    let g = h.drop_last();
    assert forall|i: int| 0 <= i < g.len() implies lo <= (#[trigger] g[i]).v() <= hi by { assert(g[i] == h[i]); }
    assert(lo <= h[h.len() - 1].v() <= hi);
    if h.len() > n {
        lemma_smma_range(g, n, lo, hi);
        let (s, p, k) = (smma_of(g, n), h.last().v(), n as real);
        assert(lo <= (s * (k - 1real) + p) / k <= hi) by (nonlinear_arith) requires lo <= s <= hi, lo <= p <= hi, k >= 1real {}
    } else { lemma_mean_within(h, lo, hi); }
}
pub open spec fn adx_step(hs: FS, ls: FS, h: Fl, l: Fl, n: int) -> bool {
    let (h2, l2) = (p_upd(hs, h), p_upd(ls, l));
    &&& two(hs, ls, h, l)
    &&& dxs(h2, l2, n).len() == (if h2.len() < n { 0 } else { h2.len() - n + 1 }) && dxs(hs, ls, n).len() == (if hs.len() < n { 0 } else { hs.len() - n + 1 })
    &&& (h2.len() >= n ==> 0real <= adx_of(h2, l2, n) <= 100real) }
pub proof fn lemma_adx_step(hs: FS, ls: FS, h: Fl, l: Fl, n: int) requires n > 0 ensures adx_step(hs, ls, h, l, n)
{
    let (h2, l2) = (p_upd(hs, h), p_upd(ls, l));
    lemma_two(hs, ls, h, l); lemma_dxs(hs, ls, n); lemma_dxs(h2, l2, n);
    if h2.len() >= n { lemma_smma_range(dxs(h2, l2, n), n, 0real, 100real); }
}
// ---- stochastic ----
pub open spec fn smax(s: FS) -> real decreases s.len() { if s.len() == 0 { -FMAX() } else { rmax(smax(s.drop_last()), s.last().v()) } }
pub open spec fn smin(s: FS) -> real decreases s.len() { if s.len() == 0 { FMAX() } else { rmin(smin(s.drop_last()), s.last().v()) } }
pub proof fn lemma_smax(s: FS) ensures forall|i: int| 0 <= i < s.len() ==> smin(s) <= (#[trigger] s[i]).v() <= smax(s) decreases s.len()
{
    if s.len() > 0 { let t = s.drop_last(); lemma_smax(t);
        assert forall|i: int| 0 <= i < s.len() implies smin(s) <= (#[trigger] s[i]).v() <= smax(s) by { if i < t.len() { assert(s[i] == t[i]); } } }
}
pub proof fn lemma_smax_mem(s: FS) requires s.len() > 0, within(s, -FMAX(), FMAX()) ensures exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).v() == smax(s), exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).v() == smin(s) decreases s.len()
{
    let t = s.drop_last();
    assert(-FMAX() <= s[s.len() - 1].v() <= FMAX());
    if s.len() > 1 {
        assert forall|i: int| 0 <= i < t.len() implies -FMAX() <= (#[trigger] t[i]).v() <= FMAX() by { assert(t[i] == s[i]); }
        lemma_smax_mem(t);
        let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).v() == smax(t); let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).v() == smin(t);
        assert(s[i] == t[i] && s[j] == t[j]);
        assert(s[s.len() - 1] == s.last());
    } else { assert(s[0] == s.last()); assert(t =~= Seq::empty()); }
}
// position of the close between the extremes of the last n candles
pub open spec fn fast_of(hs: FS, ls: FS, c: real, n: int) -> real {
    let (hi, lo) = (smax(tail_n(hs, n)), smin(tail_n(ls, n)));
    if hi - lo > 0real { 100real * (c - lo) / (hi - lo) } else { 0real } }
pub open spec fn fasts(hs: FS, ls: FS, cs: FS, n: int) -> FS decreases hs.len() {
    if hs.len() < n || hs.len() == 0 { Seq::empty() } else { p_upd(fasts(hs.drop_last(), ls.drop_last(), cs.drop_last(), n), mk(fast_of(hs, ls, cs.last().v(), n))) } }
// simple averages of the last m of a growing series
pub open spec fn smas(h: FS, m: int) -> FS decreases h.len() { if h.len() < m || h.len() == 0 { Seq::empty() } else { p_upd(smas(h.drop_last(), m), mk(sma_of(h, m))) } }
pub open spec fn fin(x: Fl) -> bool { -FMAX() <= x.v() <= FMAX() }
pub proof fn lemma_fast_range(hs: FS, ls: FS, cs: FS, n: int) requires 0 < n <= hs.len(), inside(hs, ls, cs) ensures 0real <= fast_of(hs, ls, cs.last().v(), n) <= 100real
{
    let (a, b) = (tail_n(hs, n), tail_n(ls, n)); let k = cs.len();
    lemma_smax(a); lemma_smax(b);
    assert(ls[k - 1].v() <= cs[k - 1].v() <= hs[k - 1].v());
    assert(a[n - 1] == hs[k - 1] && b[n - 1] == ls[k - 1]);
    let (hi, lo, c) = (smax(a), smin(b), cs.last().v());
    assert(lo <= c <= hi);
    if hi - lo > 0real { let (x, r) = (c - lo, hi - lo); assert(0real <= 100real * x / r <= 100real) by (nonlinear_arith) requires 0real <= x <= r, r > 0real {} }
}
pub proof fn lemma_fasts(hs: FS, ls: FS, cs: FS, n: int)
    requires n > 0, hs.len() == ls.len() == cs.len()
    ensures fasts(hs, ls, cs, n).len() == (if hs.len() < n { 0 } else { hs.len() - n + 1 }), inside(hs, ls, cs) ==> within(fasts(hs, ls, cs, n), 0real, 100real)
    decreases hs.len()
{ if hs.len() >= n { lemma_fasts(hs.drop_last(), ls.drop_last(), cs.drop_last(), n); if inside(hs, ls, cs) { lemma_inside_drop(hs, ls, cs); lemma_fast_range(hs, ls, cs, n); } } }
pub proof fn lemma_smas(h: FS, m: int, lo: real, hi: real) requires m > 0 ensures smas(h, m).len() == (if h.len() < m { 0 } else { h.len() - m + 1 }), within(h, lo, hi) ==> within(smas(h, m), lo, hi) decreases h.len()
{
    if h.len() >= m { lemma_smas(h.drop_last(), m, lo, hi);
        if within(h, lo, hi) { lemma_within_sub(h, 0, h.len() - 1, lo, hi); assert(h.drop_last() =~= h.subrange(0, h.len() - 1)); lemma_within_sub(h, h.len() - m, h.len() as int, lo, hi); lemma_mean_within(tail_n(h, m), lo, hi); } }
}
pub open spec fn stoch_k(hs: FS, ls: FS, cs: FS, n: int, m: int) -> real { sma_of(fasts(hs, ls, cs, n), m) }
pub open spec fn stoch_d(hs: FS, ls: FS, cs: FS, n: int, m: int, d: int) -> real { sma_of(smas(fasts(hs, ls, cs, n), m), d) }
pub proof fn lemma_stoch_range(hs: FS, ls: FS, cs: FS, n: int, m: int, d: int)
    requires n > 0, m > 0, d > 0, hs.len() >= n + m + d - 2, inside(hs, ls, cs)
    ensures 0real <= stoch_k(hs, ls, cs, n, m) <= 100real, 0real <= stoch_d(hs, ls, cs, n, m, d) <= 100real
{
    let f = fasts(hs, ls, cs, n); let s = smas(f, m);
    lemma_fasts(hs, ls, cs, n); lemma_smas(f, m, 0real, 100real);
    lemma_within_sub(f, f.len() - m, f.len() as int, 0real, 100real); lemma_mean_within(tail_n(f, m), 0real, 100real);
    lemma_within_sub(s, s.len() - d, s.len() as int, 0real, 100real); lemma_mean_within(tail_n(s, d), 0real, 100real);
}
pub open spec fn stoch_step(hs: FS, ls: FS, cs: FS, h: Fl, l: Fl, c: Fl, n: int, m: int) -> bool {
    let (h2, l2, c2) = (p_upd(hs, h), p_upd(ls, l), p_upd(cs, c));
    &&& two(hs, ls, h, l) && one(cs, c) && last_step(hs, h, n) && last_step(ls, l, n)
    &&& fasts(hs, ls, cs, n).len() == (if hs.len() < n { 0 } else { hs.len() - n + 1 })
    &&& fasts(h2, l2, c2, n).len() == (if h2.len() < n { 0 } else { h2.len() - n + 1 })
    &&& (h2.len() >= n ==> ({ let f = fasts(hs, ls, cs, n); let x = mk(fast_of(h2, l2, c.v(), n)); fasts(h2, l2, c2, n) == p_upd(f, x) && one(f, x) }))
    &&& (h2.len() < n ==> fasts(h2, l2, c2, n) == fasts(hs, ls, cs, n))
    &&& smas(fasts(hs, ls, cs, n), m).len() == (if hs.len() < n + m - 1 { 0 } else { hs.len() - n - m + 2 })
    &&& smas(fasts(h2, l2, c2, n), m).len() == (if h2.len() < n + m - 1 { 0 } else { h2.len() - n - m + 2 }) }
pub proof fn lemma_stoch_step(hs: FS, ls: FS, cs: FS, h: Fl, l: Fl, c: Fl, n: int, m: int) requires n > 0, m > 0, hs.len() == ls.len() == cs.len() ensures stoch_step(hs, ls, cs, h, l, c, n, m)
{
    let (h2, l2, c2) = (p_upd(hs, h), p_upd(ls, l), p_upd(cs, c));
    lemma_two(hs, ls, h, l); lemma_one(cs, c); lemma_last_n_push(hs, h, n); lemma_last_n_push(ls, l, n);
    lemma_fasts(hs, ls, cs, n); lemma_fasts(h2, l2, c2, n);
    lemma_one(fasts(hs, ls, cs, n), mk(fast_of(h2, l2, c.v(), n)));
    lemma_smas(fasts(hs, ls, cs, n), m, 0real, 100real); lemma_smas(fasts(h2, l2, c2, n), m, 0real, 100real);
}
// ---- convergence / divergence ----
pub open spec fn macd_as(s: int, l: int) -> real { if s == 12 && l == 26 { 15real / 100real } else { std_a(s) } }
pub open spec fn macd_al(s: int, l: int) -> real { if s == 12 && l == 26 { 75real / 1000real } else { std_a(l) } }
pub open spec fn macd_of(h: FS, s: int, l: int) -> real { ema_of(h, macd_as(s, l)) - ema_of(h, macd_al(s, l)) }
pub open spec fn macds(h: FS, s: int, l: int) -> FS decreases h.len() { if h.len() < l || h.len() == 0 { Seq::empty() } else { p_upd(macds(h.drop_last(), s, l), mk(macd_of(h, s, l))) } }
pub open spec fn macd_sig(h: FS, s: int, l: int, g: int) -> real { ema_of(macds(h, s, l), std_a(g)) }
pub proof fn lemma_macds(h: FS, s: int, l: int) requires l > 0 ensures macds(h, s, l).len() == (if h.len() < l { 0 } else { h.len() - l + 1 }) decreases h.len()
{ if h.len() >= l { lemma_macds(h.drop_last(), s, l); } }
pub open spec fn macd_step(h: FS, p: Fl, s: int, l: int) -> bool {
    one(h, p) && macds(h, s, l).len() == (if h.len() < l { 0 } else { h.len() - l + 1 }) && macds(p_upd(h, p), s, l).len() == (if h.len() + 1 < l { 0 } else { h.len() + 1 - l + 1 }) }
pub proof fn lemma_macd_step(h: FS, p: Fl, s: int, l: int) requires l > 0 ensures macd_step(h, p, s, l)
{ lemma_one(h, p); lemma_macds(h, s, l); lemma_macds(p_upd(h, p), s, l); }
pub proof fn lemma_fold_max(acc: FS, s: FS)
    requires folded(acc, mk(-FMAX()), s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] acc[i + 1]).v() == rmax(acc[i].v(), s[i].v())
    ensures acc.last().v() == smax(s)
    decreases s.len()
{
    if s.len() > 0 {
        let (a, t) = (acc.drop_last(), s.drop_last());
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] a[i + 1]).v() == rmax(a[i].v(), t[i].v()) by { assert(acc[i + 1].v() == rmax(acc[i].v(), s[i].v())); }
        lemma_fold_max(a, t);
        let n = s.len() - 1;
        assert(acc[n + 1].v() == rmax(acc[n].v(), s[n].v()));
    }
}
pub proof fn lemma_fold_min(acc: FS, s: FS)
    requires folded(acc, mk(FMAX()), s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] acc[i + 1]).v() == rmin(acc[i].v(), s[i].v())
    ensures acc.last().v() == smin(s)
    decreases s.len()
{
    if s.len() > 0 {
        let (a, t) = (acc.drop_last(), s.drop_last());
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] a[i + 1]).v() == rmin(a[i].v(), t[i].v()) by { assert(acc[i + 1].v() == rmin(acc[i].v(), s[i].v())); }
        lemma_fold_min(a, t);
        let n = s.len() - 1;
        assert(acc[n + 1].v() == rmin(acc[n].v(), s[n].v()));
    }
}
}
pub use oscm::*;
/*@struct juno/src/indicators/rsi.rs Rsi
@*/
impl Rsi {
    pub open spec fn n(&self) -> int { self.t1 - 1 }
    pub open spec fn wf(&self) -> bool { 1 < self.t1 < u32::MAX - 1 && self.t <= self.t1 && self.mean_up.wf() && self.mean_down.wf() && self.mean_up.n() == self.n() && self.mean_down.n() == self.n() && 0real <= self.value.v() <= 100real }
    pub open spec fn inv(&self, h: FS) -> bool { self.t as int == lmin(h.len() as int, self.t1 as int) && self.mean_up.inv(ups(h)) && self.mean_down.inv(downs(h))
        && (h.len() > 0 ==> self.last_price.v() == h.last().v()) && (h.len() >= self.t1 ==> self.value.v() == rsi_of(h, self.n())) }
/*@fn juno/src/indicators/rsi.rs Rsi::new
ret: r
spec:
    requires period > 0, period + 2 < u32::MAX,
    ensures r.wf(), r.n() == period, r.inv(Seq::empty()),
head:
    proof { assert(ups(Seq::<Fl>::empty()) =~= Seq::empty()); assert(downs(Seq::<Fl>::empty()) =~= Seq::empty()); }
@*/
/*@fn juno/src/indicators/rsi.rs Rsi::maturity
ret: r
spec:
    requires self.wf(),
    ensures r == self.n() + 1,
@*/
/*@fn juno/src/indicators/rsi.rs Rsi::mature
ret: r
spec:
    requires self.wf(),
    ensures r == (self.t >= self.t1), forall|h: FS| #[trigger] self.inv(h) ==> r == (h.len() >= self.n() + 1),
@*/
/*@fn juno/src/indicators/rsi.rs Rsi::update
spec:
    requires old(self).wf(), exists|h: FS| old(self).inv(h),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price)),
head:
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies rsi_step(h, price, self.n()) by { lemma_rsi_step(h, price, self.n()); }
    }
let rs:
    proof { lemma_rs(self.mean_up.value.v(), self.mean_down.value.v()); }
@*/
}
/*@struct juno/src/indicators/dm.rs DM
@*/
/*@fn juno/src/indicators/dm.rs calc_direction
ret: r
spec:
    ensures r.0.v() == dir_up(prev_high.v(), prev_low.v(), high.v(), low.v()), r.1.v() == dir_down(prev_high.v(), prev_low.v(), high.v(), low.v()),
@*/
impl DM {
    pub open spec fn n(&self) -> int { self.t2 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t2 && self.t2 + 1 < u32::MAX && self.t1 == 2 && self.t3 == self.t2 + 1 && self.t <= self.t3 && self.per.v() == per(self.n()) && self.plus_value.v() >= 0real && self.minus_value.v() >= 0real }
    pub open spec fn inv(&self, hs: FS, ls: FS) -> bool {
        &&& hs.len() == ls.len() && self.t as int == lmin(hs.len() as int, self.t3 as int)
        &&& self.dmup.v() == dm_up(hs, ls, self.n()) && self.dmdown.v() == dm_down(hs, ls, self.n())
        &&& (hs.len() > 0 ==> self.prev_high.v() == hs.last().v() && self.prev_low.v() == ls.last().v())
        &&& (hs.len() >= self.n() ==> self.plus_value.v() == dm_up(hs, ls, self.n()) && self.minus_value.v() == dm_down(hs, ls, self.n())) }
/*@fn juno/src/indicators/dm.rs DM::new
ret: r
spec:
    requires period > 0, period + 1 < u32::MAX,
    ensures r.wf(), r.n() == period, r.inv(Seq::empty(), Seq::empty()),
@*/
/*@fn juno/src/indicators/dm.rs DM::maturity
ret: r
spec:
    ensures r == self.n(),
@*/
/*@fn juno/src/indicators/dm.rs DM::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|hs: FS, ls: FS| #[trigger] self.inv(hs, ls) ==> r == (hs.len() >= self.n()),
@*/
/*@fn juno/src/indicators/dm.rs DM::diff
ret: r
spec:
    ensures r.v() == rabs(self.plus_value.v() - self.minus_value.v()),
@*/
/*@fn juno/src/indicators/dm.rs DM::sum
ret: r
spec:
    ensures r.v() == self.plus_value.v() + self.minus_value.v(),
@*/
/*@fn juno/src/indicators/dm.rs DM::update
spec:
    requires old(self).wf(), exists|hs: FS, ls: FS| old(self).inv(hs, ls),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|hs: FS, ls: FS| #[trigger] old(self).inv(hs, ls) ==> final(self).inv(p_upd(hs, high), p_upd(ls, low)),
head:
    proof { assert forall|hs: FS, ls: FS| #[trigger] self.inv(hs, ls) implies two(hs, ls, high, low) && dm_up(p_upd(hs, high), p_upd(ls, low), self.n()) >= 0real && dm_down(p_upd(hs, high), p_upd(ls, low), self.n()) >= 0real
        by { lemma_two(hs, ls, high, low); lemma_dm(p_upd(hs, high), p_upd(ls, low), self.n()); } }
@*/
}
/*@struct juno/src/indicators/di.rs DI
@*/
/*@fn juno/src/indicators/di.rs calc_truerange
ret: r
spec:
    ensures r.v() == tr_of(prev_close.v(), high.v(), low.v()), r.v() >= high.v() - low.v(),
@*/
impl DI {
    pub open spec fn n(&self) -> int { self.t2 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t2 && self.t2 + 1 < u32::MAX && self.t1 == 2 && self.t3 == self.t2 + 1 && self.t <= self.t3 && self.per.v() == per(self.n()) && self.dm.wf() && self.dm.n() == self.n() }
    pub open spec fn inv(&self, hs: FS, ls: FS, cs: FS) -> bool {
        &&& hs.len() == cs.len() && self.dm.inv(hs, ls) && self.t as int == lmin(hs.len() as int, self.t3 as int)
        &&& self.atr.v() == atr_of(hs, ls, cs, self.n()) && (hs.len() > 0 ==> self.prev_close.v() == cs.last().v())
        &&& (hs.len() >= self.n() ==> self.plus_value.v() == di_up(hs, ls, cs, self.n()) && self.minus_value.v() == di_down(hs, ls, cs, self.n())) }
/*@fn juno/src/indicators/di.rs DI::new
ret: r
spec:
    requires period > 0, period + 1 < u32::MAX,
    ensures r.wf(), r.n() == period, r.inv(Seq::empty(), Seq::empty(), Seq::empty()),
@*/
/*@fn juno/src/indicators/di.rs DI::maturity
ret: r
spec:
    ensures r == self.n(),
@*/
/*@fn juno/src/indicators/di.rs DI::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|hs: FS, ls: FS, cs: FS| #[trigger] self.inv(hs, ls, cs) ==> r == (hs.len() >= self.n()),
@*/
/*@fn juno/src/indicators/di.rs DI::update_values
spec:
    ensures *final(self) == (DI { plus_value: final(self).plus_value, minus_value: final(self).minus_value, ..*old(self) }),
        final(self).plus_value.v() == share(old(self).dm.plus_value.v(), old(self).atr.v()), final(self).minus_value.v() == share(old(self).dm.minus_value.v(), old(self).atr.v()),
@*/
/*@fn juno/src/indicators/di.rs DI::update
spec:
    requires old(self).wf(), exists|hs: FS, ls: FS, cs: FS| old(self).inv(hs, ls, cs),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|hs: FS, ls: FS, cs: FS| #[trigger] old(self).inv(hs, ls, cs) ==> final(self).inv(p_upd(hs, high), p_upd(ls, low), p_upd(cs, close)),
head:
    proof { assert forall|hs: FS, ls: FS, cs: FS| #[trigger] self.inv(hs, ls, cs) implies two(hs, ls, high, low) && one(cs, close) && (cs.len() > 0 ==> p_upd(cs, close)[cs.len() - 1] == cs.last())
        by { lemma_two(hs, ls, high, low); lemma_one(cs, close); } }
@*/
}
/*@struct juno/src/indicators/dx.rs DX
@*/
impl DX {
    pub open spec fn n(&self) -> int { self.t1 as int }
    pub open spec fn wf(&self) -> bool { 0 < self.t1 && self.t1 + 1 < u32::MAX && self.t <= self.t1 && self.dm.wf() && self.dm.n() == self.n() && 0real <= self.value.v() <= 100real }
    pub open spec fn inv(&self, hs: FS, ls: FS) -> bool {
        self.dm.inv(hs, ls) && self.t as int == lmin(hs.len() as int, self.n()) && (hs.len() >= self.n() ==> self.value.v() == dx_of(hs, ls, self.n())) }
/*@fn juno/src/indicators/dx.rs DX::new
ret: r
spec:
    requires period > 0, period + 1 < u32::MAX,
    ensures r.wf(), r.n() == period, r.inv(Seq::empty(), Seq::empty()),
@*/
/*@fn juno/src/indicators/dx.rs DX::maturity
ret: r
spec:
    ensures r == self.n(),
@*/
/*@fn juno/src/indicators/dx.rs DX::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|hs: FS, ls: FS| #[trigger] self.inv(hs, ls) ==> r == (hs.len() >= self.n()),
@*/
/*@fn juno/src/indicators/dx.rs DX::update
spec:
    requires old(self).wf(), exists|hs: FS, ls: FS| old(self).inv(hs, ls),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|hs: FS, ls: FS| #[trigger] old(self).inv(hs, ls) ==> final(self).inv(p_upd(hs, high), p_upd(ls, low)),
head:
    proof { assert forall|hs: FS, ls: FS| #[trigger] self.inv(hs, ls) implies 0real <= dx_of(p_upd(hs, high), p_upd(ls, low), self.n()) <= 100real && self.dm.inv(hs, ls) by { lemma_dx_range(p_upd(hs, high), p_upd(ls, low), self.n()); } }
@*/
}
/*@struct juno/src/indicators/adx.rs Adx
@*/
impl Adx {
    pub open spec fn n(&self) -> int { self.dx.n() }
    pub open spec fn wf(&self) -> bool { self.dx.wf() && self.smma.wf() && self.smma.n() == self.n() && 2 * self.n() + 1 < u32::MAX }
    pub open spec fn inv(&self, hs: FS, ls: FS) -> bool {
        self.dx.inv(hs, ls) && self.smma.inv(dxs(hs, ls, self.n())) && (hs.len() >= 2 * self.n() - 1 ==> self.value.v() == adx_of(hs, ls, self.n()))
        && (hs.len() < 2 * self.n() - 1 ==> self.value.v() == 0real) }
/*@fn juno/src/indicators/adx.rs Adx::new
ret: r
spec:
    requires period > 0, 2 * period + 1 < u32::MAX,
    ensures r.wf(), r.n() == period, r.inv(Seq::empty(), Seq::empty()),
@*/
/*@fn juno/src/indicators/adx.rs Adx::maturity
ret: r
spec:
    requires self.wf(),
    ensures r == 2 * self.n(),
@*/
/*@fn juno/src/indicators/adx.rs Adx::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|hs: FS, ls: FS| #[trigger] self.inv(hs, ls) ==> r == (hs.len() >= 2 * self.n()),
head:
    proof { assert forall|hs: FS, ls: FS| #[trigger] self.inv(hs, ls) implies self.dx.inv(hs, ls) && self.smma.inv(dxs(hs, ls, self.n())) && dxs(hs, ls, self.n()).len() == (if hs.len() < self.n() { 0 } else { hs.len() - self.n() + 1 }) by { lemma_dxs(hs, ls, self.n()); } }
@*/
/*@fn juno/src/indicators/adx.rs Adx::update
spec:
    requires old(self).wf(), exists|hs: FS, ls: FS| old(self).inv(hs, ls),
    ensures final(self).wf(), final(self).n() == old(self).n(),
        forall|hs: FS, ls: FS| #[trigger] old(self).inv(hs, ls) ==> final(self).inv(p_upd(hs, high), p_upd(ls, low)),
        forall|hs: FS, ls: FS| #[trigger] old(self).inv(hs, ls) && hs.len() >= 2 * old(self).n() ==> 0real <= final(self).value.v() <= 100real,
head:
    proof { assert forall|hs: FS, ls: FS| #[trigger] self.inv(hs, ls) implies adx_step(hs, ls, high, low, self.n()) && self.dx.inv(hs, ls) by { lemma_adx_step(hs, ls, high, low, self.n()); } }
@*/
}
/*@struct juno/src/indicators/stoch.rs Stoch
@*/
impl Stoch {
    pub open spec fn n(&self) -> int { self.t1 as int }
    pub open spec fn m(&self) -> int { self.k_sma.n() }
    pub open spec fn l(&self) -> int { self.d_sma.n() }
    pub open spec fn wf(&self) -> bool { 0 < self.t1 && self.k_sma.wf() && self.d_sma.wf() && 0 < self.m() && 0 < self.l() && self.n() + self.m() + self.l() - 2 < u32::MAX && self.t2 == self.n() + self.m() - 1 && self.t3 == self.t2 + self.l() - 1 && self.t <= self.t3
        && self.k_high_window.cap() == self.n() && self.k_low_window.cap() == self.n() }
    pub open spec fn inv(&self, hs: FS, ls: FS, cs: FS) -> bool {
        &&& hs.len() == ls.len() == cs.len() && self.t as int == lmin(hs.len() as int, self.t3 as int)
        &&& self.k_high_window@ == last_n(hs, self.n()) && self.k_low_window@ == last_n(ls, self.n())
        &&& self.k_sma.inv(fasts(hs, ls, cs, self.n())) && self.d_sma.inv(smas(fasts(hs, ls, cs, self.n()), self.m()))
        &&& (hs.len() >= self.t3 ==> self.k.v() == stoch_k(hs, ls, cs, self.n(), self.m()) && self.d.v() == stoch_d(hs, ls, cs, self.n(), self.m(), self.l())) }
/*@fn juno/src/indicators/stoch.rs Stoch::new
ret: r
spec:
    requires k_period > 0, k_sma_period > 0, d_sma_period > 0, k_period + k_sma_period + d_sma_period < u32::MAX,
    ensures r.wf(), r.n() == k_period, r.m() == k_sma_period, r.l() == d_sma_period, r.inv(Seq::empty(), Seq::empty(), Seq::empty()),
head:
    proof { assert(last_n(Seq::<Fl>::empty(), k_period as int) =~= Seq::empty()); }
@*/
/*@fn juno/src/indicators/stoch.rs Stoch::maturity
ret: r
spec:
    requires self.wf(),
    ensures r == self.n() + self.m() + self.l() - 2,
@*/
/*@fn juno/src/indicators/stoch.rs Stoch::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|hs: FS, ls: FS, cs: FS| #[trigger] self.inv(hs, ls, cs) ==> r == (hs.len() >= self.n() + self.m() + self.l() - 2),
@*/
/*@fn juno/src/indicators/stoch.rs Stoch::update
spec:
    requires old(self).wf(), exists|hs: FS, ls: FS, cs: FS| old(self).inv(hs, ls, cs),
    ensures final(self).wf(), final(self).n() == old(self).n(), final(self).m() == old(self).m(), final(self).l() == old(self).l(),
        forall|hs: FS, ls: FS, cs: FS| #[trigger] old(self).inv(hs, ls, cs) ==> final(self).inv(p_upd(hs, high), p_upd(ls, low), p_upd(cs, close)),
head:
    hide(fsum); hide(window); hide(sma_of); hide(ring_is); hide(smax); hide(smin); hide(Sma::wf); hide(fasts);
    let ghost s0 = *self;
    proof { assert forall|hs: FS, ls: FS, cs: FS| #[trigger] self.inv(hs, ls, cs) implies stoch_step(hs, ls, cs, high, low, close, self.n(), self.m()) by { lemma_stoch_step(hs, ls, cs, high, low, close, self.n(), self.m()); } }
let max_high:
    proof { let w = self.k_high_window@; let acc = choose|acc: FS| #[trigger] folded(acc, mk(-FMAX()), w) && (forall|i: int| 0 <= i < w.len() ==> (#[trigger] acc[i + 1]).v() == rmax(acc[i].v(), w[i].v())) && max_high == acc.last(); lemma_fold_max(acc, w); }
let min_low:
    proof { let w = self.k_low_window@; let acc = choose|acc: FS| #[trigger] folded(acc, mk(FMAX()), w) && (forall|i: int| 0 <= i < w.len() ==> (#[trigger] acc[i + 1]).v() == rmin(acc[i].v(), w[i].v())) && min_low == acc.last(); lemma_fold_min(acc, w); }
let fast_k:
    proof { assert forall|hs: FS, ls: FS, cs: FS| #[trigger] s0.inv(hs, ls, cs) implies fast_k == mk(fast_of(p_upd(hs, high), p_upd(ls, low), close.v(), s0.n())) by {
        let (h2, l2) = (p_upd(hs, high), p_upd(ls, low));
        assert(self.k_high_window@ == tail_n(h2, s0.n()));
        assert(self.k_low_window@ == tail_n(l2, s0.n()));
        assert(max_high.v() == smax(tail_n(h2, s0.n())));
        assert(min_low.v() == smin(tail_n(l2, s0.n())));
        assert(fast_k.v() == fast_of(h2, l2, close.v(), s0.n()));
    } }
tail:
    proof { assert forall|hs: FS, ls: FS, cs: FS| #[trigger] s0.inv(hs, ls, cs) implies self.inv(p_upd(hs, high), p_upd(ls, low), p_upd(cs, close)) by {
        let (h2, l2, c2) = (p_upd(hs, high), p_upd(ls, low), p_upd(cs, close));
        let (n, m) = (s0.n(), s0.m());
        assert(self.k_sma.inv(fasts(h2, l2, c2, n)));
        assert(self.d_sma.inv(smas(fasts(h2, l2, c2, n), m)));
    } }
@*/
}
/*@struct juno/src/indicators/macd.rs Macd
@*/
impl Macd {
    pub open spec fn s(&self) -> int { self.short_ema.n() }
    pub open spec fn l(&self) -> int { self.long_ema.n() }
    pub open spec fn g(&self) -> int { self.signal_ema.n() }
    pub open spec fn wf(&self) -> bool { self.short_ema.wf() && self.long_ema.wf() && self.signal_ema.wf() && self.s() <= self.l() && self.l() + self.g() < u32::MAX
        && self.short_ema.a.v() == macd_as(self.s(), self.l()) && self.long_ema.a.v() == macd_al(self.s(), self.l()) && self.signal_ema.a.v() == std_a(self.g()) }
    pub open spec fn inv(&self, h: FS) -> bool { self.short_ema.inv(h) && self.long_ema.inv(h) && self.signal_ema.inv(macds(h, self.s(), self.l()))
        && (h.len() >= self.l() ==> self.value.v() == macd_of(h, self.s(), self.l()) && self.signal.v() == macd_sig(h, self.s(), self.l(), self.g()) && self.histogram.v() == self.value.v() - self.signal.v()) }
/*@fn juno/src/indicators/macd.rs Macd::new
ret: r
spec:
    requires 0 < short_period <= long_period, signal_period > 0, long_period + signal_period < u32::MAX,
    ensures r.wf(), r.s() == short_period, r.l() == long_period, r.g() == signal_period, r.inv(Seq::empty()),
head:
    proof { assert(macds(Seq::empty(), short_period as int, long_period as int) =~= Seq::empty()); }
@*/
/*@fn juno/src/indicators/macd.rs Macd::maturity
ret: r
spec:
    requires self.wf(),
    ensures r == self.l() + self.g() - 1,
@*/
/*@fn juno/src/indicators/macd.rs Macd::mature
ret: r
spec:
    requires self.wf(),
    ensures forall|h: FS| #[trigger] self.inv(h) ==> r == (h.len() >= self.l() + self.g() - 1),
head:
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies self.signal_ema.inv(macds(h, self.s(), self.l())) && macds(h, self.s(), self.l()).len() == (if h.len() < self.l() { 0 } else { h.len() - self.l() + 1 }) by { lemma_macds(h, self.s(), self.l()); } }
@*/
/*@fn juno/src/indicators/macd.rs Macd::update
spec:
    requires old(self).wf(),
    ensures final(self).wf(), final(self).s() == old(self).s(), final(self).l() == old(self).l(), final(self).g() == old(self).g(),
        forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price)),
head:
    proof { assert forall|h: FS| #[trigger] self.inv(h) implies macd_step(h, price, self.s(), self.l()) && self.short_ema.inv(h) && self.long_ema.inv(h) by { lemma_macd_step(h, price, self.s(), self.l()); } }
@*/
}

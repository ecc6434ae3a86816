//@include hdr.rs
verus! {
//@include rt.rs
//@include imath.rs
//@include iter.rs
//@subst_type impl Iterator<Item = (u64, u64)> => It<(u64, u64)>

pub type Spans = Seq<(u64, u64)>;
pub open spec fn cover(s: Spans, x: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 <= x < s[i].1 }
// ordered, non-overlapping
pub open spec fn ordered(s: Spans) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 <= s[i].1)
    && (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 <= (#[trigger] s[j]).0) }
pub open spec fn apart(s: Spans) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).1 < (#[trigger] s[j]).0 }
// the partial result of a merge: finished spans plus the one still open
pub open spec fn acc(r: Spans, ms: Option<u64>, me: Option<u64>) -> Spans {
    if ms is Some && me is Some { r.push((ms->0, me->0)) } else { r } }
pub proof fn lemma_cover_push(s: Spans, p: (u64, u64), x: int)
    ensures cover(s.push(p), x) <==> cover(s, x) || p.0 <= x < p.1
{
    let t = s.push(p);
    if cover(s, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 <= x < s[i].1; assert(t[i] == s[i]); }
    if p.0 <= x < p.1 { assert(t[s.len() as int] == p); }
    if cover(t, x) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 <= x < t[i].1; if i < s.len() { assert(s[i] == t[i]); } }
}
pub proof fn lemma_cover_take(s: Spans, i: int, x: int)
    requires 0 <= i < s.len()
    ensures cover(s.take(i + 1), x) <==> cover(s.take(i), x) || s[i].0 <= x < s[i].1
{ assert(s.take(i + 1) =~= s.take(i).push(s[i])); lemma_cover_push(s.take(i), s[i], x); }

/*@fn juno/src/utils/mod.rs merge_adjacent_spans
ret: r
spec:
    requires ordered(spans@),
    ensures
        forall|x: int| #[trigger] cover(r@, x) <==> cover(spans@, x),
        ordered(r@), apart(r@),
        spans@.len() > 0 ==> r@.len() > 0 && r@[0].0 == spans@[0].0 && r@.last().1 == spans@.last().1,
        r@.len() <= spans@.len(),
loop 0 inv:
    invariant
        i_0 <= s_0@.len(), s_0@ == spans@, ordered(spans@),
        merged_start is Some <==> i_0 > 0, merged_end is Some <==> i_0 > 0,
        i_0 == 0 ==> result@.len() == 0,
        ordered(acc(result@, merged_start, merged_end)), apart(acc(result@, merged_start, merged_end)),
        forall|x: int| #[trigger] cover(acc(result@, merged_start, merged_end), x) <==> cover(spans@.take(i_0 as int), x),
        i_0 > 0 ==> merged_end->0 == spans@[i_0 - 1].1 && acc(result@, merged_start, merged_end)[0].0 == spans@[0].0,
        i_0 > 0 ==> result@.len() < i_0,
    decreases s_0@.len() - i_0,
loop 0 head:
    let ghost r0 = result@; let ghost ms0 = merged_start; let ghost me0 = merged_end; let ghost k = i_0 - 1;
    let ghost p = s_0@[k];
loop 0 tail:
    proof {
        let a0 = acc(r0, ms0, me0); let a1 = acc(result@, merged_start, merged_end);
        assert forall|x: int| #[trigger] cover(a1, x) <==> cover(spans@.take(k + 1), x) by {
            lemma_cover_take(spans@, k, x);
            assert(cover(a0, x) <==> cover(spans@.take(k), x));
            if ms0 is Some {
                lemma_cover_push(r0, (ms0->0, me0->0), x);
                if result@.len() == r0.len() { assert(result@ =~= r0); lemma_cover_push(r0, (ms0->0, p.1), x); assert(p.0 == me0->0); assert(a0[r0.len() as int] == (ms0->0, me0->0)); }
                else { lemma_cover_push(result@, (p.0, p.1), x); assert(a0 =~= result@); }
            } else { lemma_cover_push(r0, p, x); assert(r0 =~= Seq::<(u64, u64)>::empty()); }
        }
        if k > 0 {
            assert(spans@[k - 1].1 <= spans@[k].0);
            assert(a0[a0.len() - 1] == (ms0->0, me0->0));
            if result@.len() == r0.len() { assert(result@ =~= r0);
                assert forall|i: int, j: int| 0 <= i < j < a1.len() implies (#[trigger] a1[i]).1 < (#[trigger] a1[j]).0 by { assert(a1[i] == a0[i]); assert(a0[i].1 < a0[j].0); }
                assert forall|i: int| 0 <= i < a1.len() implies (#[trigger] a1[i]).0 <= a1[i].1 by { assert(a0[i].0 <= a0[i].1); }
            } else {
                assert(a0 =~= result@);
                assert forall|i: int, j: int| 0 <= i < j < a1.len() implies (#[trigger] a1[i]).1 < (#[trigger] a1[j]).0 by {
                    if j < a0.len() { assert(a0[i].1 < a0[j].0); }
                    else if i < a0.len() - 1 { assert(a0[i].1 < a0[a0.len() - 1].0); assert(a0[a0.len() - 1].0 <= a0[a0.len() - 1].1); }
                }
                assert forall|i: int| 0 <= i < a1.len() implies (#[trigger] a1[i]).0 <= a1[i].1 by { if i < a0.len() { assert(a0[i].0 <= a0[i].1); } }
            }
        }
    }
tail:
    proof {
        assert(spans@.take(spans@.len() as int) =~= spans@);
        assert(res_@ =~= acc(result@, None, None) );
    }
@*/
/*@fn juno/src/utils/mod.rs generate_missing_spans
ret: r
spec:
    requires ordered(existing_spans@), start <= end,
    ensures
        forall|x: int| #[trigger] cover(r@, x) <==> start <= x < end && !cover(existing_spans@, x),
        ordered(r@),
        forall|i: int| 0 <= i < r@.len() ==> start <= (#[trigger] r@[i]).0 < r@[i].1 <= end,
head:
    let ghost es = existing_spans@;
loop 0 inv:
    invariant
        i_0 <= s_0@.len(), s_0@ == es, existing_spans@ == es, ordered(es), missing_end == end, start <= end,
        missing_start == (if i_0 > 0 && es[i_0 - 1].1 > start { es[i_0 - 1].1 } else { start }),
        ordered(result@),
        forall|i: int| 0 <= i < result@.len() ==> start <= (#[trigger] result@[i]).0 < result@[i].1 <= end && result@[i].1 <= missing_start,
        forall|x: int| #[trigger] cover(result@, x) <==> start <= x < end && x < missing_start && !cover(es.take(i_0 as int), x),
        forall|x: int| x >= missing_start ==> !#[trigger] cover(es.take(i_0 as int), x),
    decreases s_0@.len() - i_0,
loop 0 pre:
    proof { assert forall|x: int| !#[trigger] cover(es.take(0), x) by {}; }
loop 0 head:
    let ghost r0 = result@; let ghost k = i_0 - 1; let ghost m0 = missing_start;
loop 0 tail:
    proof {
        if k > 0 { assert(es[k - 1].1 <= es[k].0); }
        assert(es[k].0 <= es[k].1);
        assert forall|x: int| #[trigger] cover(result@, x) <==> start <= x < end && x < missing_start && !cover(es.take(k + 1), x) by {
            lemma_cover_take(es, k, x);
            assert(cover(r0, x) <==> start <= x < end && x < m0 && !cover(es.take(k), x));
            if result@.len() > r0.len() { lemma_cover_push(r0, result@.last(), x); assert(result@ =~= r0.push(result@.last())); }
            else { assert(result@ =~= r0); }
            if x >= m0 { assert(!cover(es.take(k), x)); }
        }
        assert forall|x: int| x >= missing_start implies !#[trigger] cover(es.take(k + 1), x) by { lemma_cover_take(es, k, x); assert(!cover(es.take(k), x)); }
    }
tail:
    proof {
        assert(es.take(es.len() as int) =~= es);
    }
loop 0 post:
    let ghost r1 = result@;
    proof {
        assert(es.take(es.len() as int) =~= es);
        assert forall|x: int| #[trigger] cover(r1.push((missing_start, missing_end)), x) <==> cover(r1, x) || missing_start <= x < missing_end by {
            lemma_cover_push(r1, (missing_start, missing_end), x);
        }
    }
@*/
/*@fn juno/src/utils/mod.rs page
ret: r
spec:
    requires start <= end, interval > 0, limit > 0, limit * interval <= u64::MAX, end + limit * interval <= u64::MAX,
    ensures
        (r@.len() == 0) == (start == end),
        r@.len() > 0 ==> r@[0].0 == start && r@.last().1 == end,
        forall|i: int| 0 <= i < r@.len() - 1 ==> (#[trigger] r@[i]).1 == r@[i + 1].0,
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 < r@[i].1 && r@[i].1 - r@[i].0 <= limit * interval,
head:
    let ghost n = end - start; let ghost mc = limit * interval;
    proof { lemma_mul_strictly_positive(limit as int, interval as int); lemma_grid(n, mc); }
closure 0:
    move |i: u64| -> (o: (u64, u64))
        requires i < page_size, max_count == mc, start + n == end, end + mc <= u64::MAX, i * mc < n,
        ensures o.0 == start + i * mc, o.1 == (if start + i * mc + mc < end { start + i * mc + mc } else { end as int }),
tail:
    proof {
        let l = res_@.len() as int;
        if l > 0 { assert(0 * mc == 0); assert((l - 1) * mc < n); assert((l - 1 + 1) * mc == (l - 1) * mc + mc); }
        assert forall|i: int| 0 <= i < l - 1 implies (#[trigger] res_@[i]).1 == res_@[i + 1].0 by { assert((i + 1) * mc == i * mc + mc); assert((i + 1) * mc < n); }
        assert forall|i: int| 0 <= i < l implies (#[trigger] res_@[i]).0 < res_@[i].1 && res_@[i].1 - res_@[i].0 <= limit * interval by { assert(i * mc < n); }
    }
@*/
pub open spec fn npages(n: int, m: int) -> int { spec_ceil(n, m) / m }
pub proof fn lemma_grid(n: int, m: int)
    requires n >= 0, m > 0
    ensures npages(n, m) >= 0, npages(n, m) == 0 <==> n == 0, npages(n, m) * m >= n, n > 0 ==> (npages(n, m) - 1) * m < n,
        forall|i: int| 0 <= i < npages(n, m) ==> #[trigger] (i * m) < n,
        forall|i: int| 0 <= i < npages(n, m) - 1 ==> #[trigger] ((i + 1) * m) < n,
        forall|i: int| (#[trigger] ((i + 1) * m)) == i * m + m,
        spec_ceil(n, m) < n + m,
{
    lemma_grid_ceil_c(n, m);
    let c = spec_ceil(n, m); let p = npages(n, m);
    lemma_fundamental_div_mod(c, m);
    lemma_mul_is_commutative(p, m);
    assert(p * m == c);
    assert((p - 1) * m == c - m) by (nonlinear_arith) requires p * m == c {}
    lemma_div_pos_is_pos(c, m);
    if n == 0 { assert(c == 0) by { lemma_small_mod(0nat, m as nat); } lemma_div_basics(m); }
    if p == 0 { assert(c == 0); }
    assert forall|i: int| 0 <= i < p implies #[trigger] (i * m) < n by { lemma_mul_inequality(i, p - 1, m); }
    assert forall|i: int| 0 <= i < p - 1 implies #[trigger] ((i + 1) * m) < n by { lemma_mul_inequality(i + 1, p - 1, m); }
    assert forall|i: int| (#[trigger] ((i + 1) * m)) == i * m + m by { lemma_mul_is_distributive_add_other_way(m, i, 1); }
}
pub proof fn lemma_grid_ceil_c(n: int, m: int)
    requires n >= 0, m > 0
    ensures spec_ceil(n, m) % m == 0, n <= spec_ceil(n, m) < n + m
{
    lemma_fundamental_div_mod(n, m); lemma_mod_bound(n, m);
    if n % m != 0 { 
        lemma_mod_multiples_basic(n / m + 1, m);
        assert(spec_ceil(n, m) == (n / m + 1) * m) by (nonlinear_arith) requires n == m * (n / m) + n % m, spec_ceil(n, m) == n - n % m + m {}
    }
}
}
fn main(){}

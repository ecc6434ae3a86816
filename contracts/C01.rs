//@include hdr.rs
verus! {
//@include rt.rs
//@include imath.rs
//@include prim.rs

// ---- C01, derived facts: idempotence, monotonicity, one interval apart ----
pub proof fn c01_idempotent(t: int, iv: Interval)
    requires 0 <= t, floor_dom(t, iv), iv.0 != MONTH_MS,
    ensures floor_of(floor_of(t, iv), iv) == floor_of(t, iv),
        iv.0 == WEEK_MS ==> t >= 345_600_000,
        ceil_of(ceil_of(t, iv), iv) == ceil_of(t, iv),
        ceil_of(t, iv) - floor_of(t, iv) <= iv.0,
        ceil_of(floor_of(t, iv), iv) == floor_of(t, iv),
        floor_of(ceil_of(t, iv), iv) == ceil_of(t, iv),
{
    lemma_alignment(t, iv);
    if iv.0 < WEEK_MS { lemma_grid_floor(t, iv.0 as int); lemma_grid_ceil(t, iv.0 as int); }
    else { lemma_grid_floor(t - 345_600_000, 604_800_000); lemma_grid_ceil(t - 345_600_000, 604_800_000); }
    lemma_alignment(floor_of(t, iv), iv);
    lemma_alignment(ceil_of(t, iv), iv);
}
pub proof fn c01_monotone(a: int, b: int, iv: Interval, fa: int, fb: int, ca: int, cb: int)
    requires 0 <= a <= b, is_floor(fa, a, iv), is_floor(fb, b, iv), is_ceil(ca, a, iv), is_ceil(cb, b, iv), fa >= 0,
    ensures fa <= fb, ca <= cb,
{ assert(boundary(fa, iv)); assert(boundary(cb, iv)); }
pub proof fn c01_month_idempotent(k: int)
    requires EPOCH_MONTH() <= k
    ensures floor_of(month_start(k), Interval(MONTH_MS)) == month_start(k), ceil_of(month_start(k), Interval(MONTH_MS)) == month_start(k),
{
    lemma_month_mono(k, k + 1);
    lemma_month_idx(month_start(k), k);
}
}
fn main(){}

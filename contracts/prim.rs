//@include prim_ops.rs
// ---- Gregorian months, by definition ----
// k = 12 * year + (month - 1); month_start(k) in ms since the epoch
pub open spec fn leap(y: int) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
pub open spec fn month_days(k: int) -> int {
    let m = k % 12;
    if m == 1 { if leap(k / 12) { 29 } else { 28 } }
    else if m == 3 || m == 5 || m == 8 || m == 10 { 30 } else { 31 } }
pub open spec fn EPOCH_MONTH() -> int { 1970int * 12 }
pub open spec fn month_start(k: int) -> int decreases k - EPOCH_MONTH() {
    if k <= EPOCH_MONTH() { 0 } else { month_start(k - 1) + month_days(k - 1) * 86_400_000 } }
pub open spec fn LAST_MONTH() -> int { 9999int * 12 + 11 }
pub open spec fn month_of(t: int, k: int) -> bool { EPOCH_MONTH() <= k && month_start(k) <= t < month_start(k + 1) }
pub proof fn lemma_month_nonneg(a: int) ensures month_start(a) >= 0 decreases a - EPOCH_MONTH()
{ if a > EPOCH_MONTH() { lemma_month_nonneg(a - 1); } }
pub proof fn lemma_month_mono(a: int, b: int)
    requires EPOCH_MONTH() <= a < b
    ensures 0 <= month_start(a) < month_start(b)
    decreases b - a
{
    lemma_month_nonneg(a);
    if b - 1 > a { lemma_month_mono(a, b - 1); }
}
pub proof fn lemma_month_of_unique(t: int, a: int, b: int)
    requires month_of(t, a), month_of(t, b)
    ensures a == b
{
    if a < b { if a + 1 < b { lemma_month_mono(a + 1, b); } }
    if b < a { if b + 1 < a { lemma_month_mono(b + 1, a); } }
}
// the k with month_of(t, k)
pub open spec fn month_idx(t: int) -> int { choose|k: int| month_of(t, k) }
pub proof fn lemma_month_idx(t: int, k: int) requires month_of(t, k) ensures month_idx(t) == k
{ lemma_month_of_unique(t, month_idx(t), k); }

// ---- shim: the `time` crate's calendar (TRUSTED contracts) ----
pub struct UtcOffset; 
impl UtcOffset { #[verifier::external_body] pub fn utc() -> UtcOffset { UtcOffset } }
#[derive(Clone, Copy)]
pub enum Month { January, February, March, April, May, June, July, August, September, October, November, December }
pub open spec fn month_no(m: Month) -> int { match m { Month::January => 0, Month::February => 1, Month::March => 2, Month::April => 3,
    Month::May => 4, Month::June => 5, Month::July => 6, Month::August => 7, Month::September => 8, Month::October => 9, Month::November => 10, Month::December => 11 } }
impl PartialEq for Month { #[verifier::external_body] fn eq(&self, o: &Month) -> bool { unimplemented!() } }
impl PartialEqSpecImpl<Month> for Month {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Month) -> bool { *self == *o } }
impl Month {
    #[verifier::external_body] pub fn next(self) -> (r: Month) ensures month_no(r) == (month_no(self) + 1) % 12 { unimplemented!() }
    #[verifier::external_body] pub fn previous(self) -> (r: Month) ensures month_no(r) == (month_no(self) + 11) % 12 { unimplemented!() }
}
#[verifier::external_body] pub struct OffsetDateTime { x: u8 }
#[verifier::external_body] pub struct Date { x: u8 }
#[verifier::external_body] pub struct PrimitiveDateTime { x: u8 }
#[verifier::external_body] #[derive(Debug)] pub struct ComponentRange { x: u8 }
impl View for OffsetDateTime { type V = int; uninterp spec fn view(&self) -> int; } // ns since the epoch
impl Date { pub uninterp spec fn k(&self) -> int; pub uninterp spec fn day(&self) -> int; }
impl PrimitiveDateTime { pub uninterp spec fn date(&self) -> Date; pub uninterp spec fn tod(&self) -> int; } // ms of day
pub open spec fn MAX_NANOS() -> int { month_start(LAST_MONTH() + 1) * 1_000_000 }
impl OffsetDateTime {
    #[verifier::external_body]
    pub fn from_unix_timestamp_nanos(n: i128) -> (r: Result<OffsetDateTime, ComponentRange>)
        ensures 0 <= n < MAX_NANOS() ==> r.is_ok() && r.unwrap()@ == n { unimplemented!() }
    #[verifier::external_body]
    pub fn unix_timestamp_nanos(self) -> (r: i128) ensures r == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_calendar_date(self) -> (r: (i32, Month, u8))
        ensures 0 <= self@ < MAX_NANOS() ==> 1970 <= r.0 <= 9999 && month_of(self@ / 1_000_000, 12 * r.0 + month_no(r.1)) { unimplemented!() }
}
impl Date {
    #[verifier::external_body]
    pub fn from_calendar_date(year: i32, month: Month, day: u8) -> (r: Result<Date, ComponentRange>)
        ensures -9999 <= year <= 9999 && 1 <= day <= 28 ==> r.is_ok() && r.unwrap().k() == 12 * year + month_no(month) && r.unwrap().day() == day { unimplemented!() }
    #[verifier::external_body]
    pub fn with_hms(self, h: u8, m: u8, s: u8) -> (r: Result<PrimitiveDateTime, ComponentRange>)
        ensures h < 24 && m < 60 && s < 60 ==> r.is_ok() && r.unwrap().date() == self && r.unwrap().tod() == (h * 3600 + m * 60 + s) * 1000 { unimplemented!() }
}
// ns since the epoch; before 1970 only the sign is modelled
pub uninterp spec fn before_1970(k: int, day: int, tod: int) -> nat;
pub open spec fn date_ns(k: int, day: int, tod: int) -> int { if k >= EPOCH_MONTH() { (month_start(k) + (day - 1) * 86_400_000 + tod) * 1_000_000 } else { -1 - before_1970(k, day, tod) } }
impl PrimitiveDateTime {
    #[verifier::external_body]
    pub fn assume_offset(self, o: UtcOffset) -> (r: OffsetDateTime)
        ensures r@ == date_ns(self.date().k(), self.date().day(), self.tod()) { unimplemented!() }
}
pub open spec fn MAX_TS() -> int { month_start(LAST_MONTH() + 1) } // 10000-01-01, the calendar's end
pub proof fn lemma_max_ts() ensures MAX_TS() <= 300_000_000_000_000
{ lemma_year_bound(LAST_MONTH() + 1); }
pub proof fn lemma_year_bound(k: int) requires k >= EPOCH_MONTH() ensures month_start(k) <= (k - EPOCH_MONTH()) * 31 * 86_400_000
    decreases k
{ if k > EPOCH_MONTH() { lemma_year_bound(k - 1); } }

// ---- alignment: intended meaning ----
pub open spec fn iv_known(iv: Interval) -> bool { 0 < iv.0 <= WEEK_MS || iv.0 == MONTH_MS }
// every boundary of the interval, as a set
pub open spec fn boundary(x: int, iv: Interval) -> bool {
    if iv.0 < WEEK_MS { x % iv.0 as int == 0 }
    else if iv.0 == WEEK_MS { (x - 345_600_000) % 604_800_000 == 0 }   // 1970-01-05 was the first Monday
    else { exists|k: int| EPOCH_MONTH() <= k && x == month_start(k) } }
// r is the latest boundary not after t
pub open spec fn is_floor(r: int, t: int, iv: Interval) -> bool {
    boundary(r, iv) && r <= t && forall|x: int| 0 <= x <= t && #[trigger] boundary(x, iv) ==> x <= r }
// r is the earliest boundary not before t
pub open spec fn is_ceil(r: int, t: int, iv: Interval) -> bool {
    boundary(r, iv) && r >= t && forall|x: int| x >= t && #[trigger] boundary(x, iv) ==> x >= r }
// closed forms
pub open spec fn floor_of(t: int, iv: Interval) -> int {
    if iv.0 < WEEK_MS { spec_floor(t, iv.0 as int) }
    else if iv.0 == WEEK_MS { spec_floor(t - 345_600_000, 604_800_000) + 345_600_000 }
    else { month_start(month_idx(t)) } }
pub open spec fn ceil_of(t: int, iv: Interval) -> int {
    if iv.0 < WEEK_MS { spec_ceil(t, iv.0 as int) }
    else if iv.0 == WEEK_MS { spec_ceil_off(t, 604_800_000, 345_600_000) }
    else if month_start(month_idx(t)) == t { t } else { month_start(month_idx(t) + 1) } }
pub open spec fn floor_dom(t: int, iv: Interval) -> bool {
    iv_known(iv) && (iv.0 == WEEK_MS ==> t >= 345_600_000) && (iv.0 == MONTH_MS ==> t < MAX_TS()) }
pub open spec fn ceil_dom(t: int, iv: Interval) -> bool {
    iv_known(iv) && (iv.0 == MONTH_MS ==> t <= month_start(LAST_MONTH())) && (iv.0 != MONTH_MS ==> ceil_of(t, iv) <= u64::MAX) }

pub proof fn lemma_grid_floor(t: int, m: int)
    requires m > 0
    ensures spec_floor(t, m) % m == 0, spec_floor(t, m) <= t < spec_floor(t, m) + m, t >= 0 ==> spec_floor(t, m) >= 0,
        forall|x: int| x <= t && #[trigger] (x % m) == 0 ==> x <= spec_floor(t, m),
{
    lemma_fundamental_div_mod(t, m);
    lemma_mod_bound(t, m);
    let q = t / m;
    assert(spec_floor(t, m) == q * m) by { lemma_mul_is_commutative(q, m); }
    lemma_mod_multiples_basic(q, m);
    if t >= 0 { lemma_div_pos_is_pos(t, m); lemma_mul_nonnegative(q, m); }
    assert forall|x: int| x <= t && #[trigger] (x % m) == 0 implies x <= spec_floor(t, m) by {
        lemma_fundamental_div_mod(x, m);
        lemma_div_is_ordered(x, t, m);
        lemma_mul_inequality(x / m, q, m);
        lemma_mul_is_commutative(x / m, m);
    }
}
pub proof fn lemma_grid_ceil(t: int, m: int)
    requires m > 0
    ensures spec_ceil(t, m) % m == 0, t <= spec_ceil(t, m) < t + m,
        forall|x: int| x >= t && #[trigger] (x % m) == 0 ==> x >= spec_ceil(t, m),
        spec_ceil(t, m) == -spec_floor(-t, m),
{
    lemma_fundamental_div_mod(t, m);
    lemma_mod_bound(t, m);
    let q = t / m;
    lemma_mul_is_commutative(q, m);
    if t % m != 0 {
        assert(spec_ceil(t, m) == (q + 1) * m) by { lemma_mul_is_distributive_add_other_way(m, q, 1); }
        lemma_mod_multiples_basic(q + 1, m);
        assert forall|x: int| x >= t && #[trigger] (x % m) == 0 implies x >= spec_ceil(t, m) by {
            lemma_fundamental_div_mod(x, m);
            lemma_mul_is_commutative(x / m, m);
            if x < spec_ceil(t, m) {
                if x / m >= q + 1 { lemma_mul_inequality(q + 1, x / m, m); }
                lemma_mul_inequality(x / m, q, m);
            }
        }
    }
    // symmetric closed form
    let f = spec_ceil(t, m);
    lemma_grid_floor(-t, m);
    assert((-f) % m == 0) by {
        lemma_fundamental_div_mod(f, m);
        assert(-f == (-(f / m)) * m) by (nonlinear_arith) requires f == m * (f / m) + f % m, f % m == 0 {}
        lemma_mod_multiples_basic(-(f / m), m);
    }
    let g = spec_floor(-t, m);
    assert((-g) % m == 0) by {
        lemma_fundamental_div_mod(g, m);
        assert(-g == (-(g / m)) * m) by (nonlinear_arith) requires g == m * (g / m) + g % m, g % m == 0 {}
        lemma_mod_multiples_basic(-(g / m), m);
    }
    if t % m == 0 { assert(spec_ceil(t, m) == t); }
}
pub proof fn lemma_month_facts(t: int, k: int)
    requires month_of(t, k)
    ensures is_floor(month_start(k), t, Interval(MONTH_MS)),
        month_start(k) == t ==> is_ceil(t, t, Interval(MONTH_MS)),
        month_start(k) != t ==> is_ceil(month_start(k + 1), t, Interval(MONTH_MS)),
{
    let iv = Interval(MONTH_MS);
    assert(boundary(month_start(k), iv)); assert(boundary(month_start(k + 1), iv));
    assert forall|x: int| 0 <= x <= t && #[trigger] boundary(x, iv) implies x <= month_start(k) by {
        let j = choose|j: int| EPOCH_MONTH() <= j && x == month_start(j);
        if j > k { if j > k + 1 { lemma_month_mono(k + 1, j); } }
        else if j < k { lemma_month_mono(j, k); }
    }
    assert forall|x: int| x >= t && #[trigger] boundary(x, iv) implies x >= (if month_start(k) == t { t } else { month_start(k + 1) }) by {
        let j = choose|j: int| EPOCH_MONTH() <= j && x == month_start(j);
        if j < k { lemma_month_mono(j, k); }
        if j > k + 1 { lemma_month_mono(k + 1, j); }
    }
}
// C01 in one statement: the closed forms are the latest boundary not after / earliest boundary not before
pub proof fn lemma_alignment(t: int, iv: Interval)
    requires 0 <= t, iv_known(iv), iv.0 == MONTH_MS ==> exists|k: int| month_of(t, k),
    ensures floor_dom(t, iv) ==> is_floor(floor_of(t, iv), t, iv),
        is_ceil(ceil_of(t, iv), t, iv) || iv.0 == WEEK_MS && t <= 345_600_000,
        iv.0 == WEEK_MS && t <= 345_600_000 ==> ceil_of(t, iv) == 345_600_000,
        boundary(t, iv) && floor_dom(t, iv) ==> floor_of(t, iv) == t && ceil_of(t, iv) == t,
        t < floor_of(t, iv) + iv.0 || iv.0 == MONTH_MS,
{
    if iv.0 < WEEK_MS {
        lemma_grid_floor(t, iv.0 as int); lemma_grid_ceil(t, iv.0 as int);
    } else if iv.0 == WEEK_MS {
        let o = 345_600_000int; let m = 604_800_000int;
        lemma_grid_floor(t - o, m); lemma_grid_ceil(t - o, m);
        assert(o % m == o);
        assert forall|x: int| 0 <= x <= t && #[trigger] boundary(x, iv) implies x <= floor_of(t, iv) by { assert((x - o) % m == 0); }
        assert forall|x: int| x >= t && #[trigger] boundary(x, iv) implies x >= ceil_of(t, iv) || t <= o by { assert((x - o) % m == 0); }
        if t > o { assert(is_ceil(ceil_of(t, iv), t, iv)); }
    } else {
        let k = choose|k: int| month_of(t, k);
        lemma_month_idx(t, k);
        lemma_month_facts(t, k);
    }
}

pub open spec fn ceil_month_ok(t: int, k: int) -> bool {
    let iv = Interval(MONTH_MS);
    &&& month_start(k) >= 0
    &&& floor_of(t, iv) == month_start(k)
    &&& ceil_of(t, iv) == (if month_start(k) == t { t } else { month_start(k + 1) })
    &&& is_ceil(ceil_of(t, iv), t, iv)
    &&& k <= LAST_MONTH()
    &&& (month_start(k) != t ==> k < LAST_MONTH() && month_start(k + 1) <= MAX_TS())
}
pub proof fn lemma_ceil_month(t: int, k: int)
    requires month_of(t, k), t <= month_start(LAST_MONTH())
    ensures ceil_month_ok(t, k)
{
    lemma_month_idx(t, k);
    lemma_month_facts(t, k);
    lemma_month_mono(k, k + 1);
    if k > LAST_MONTH() { lemma_month_mono(LAST_MONTH(), k); }
    if k == LAST_MONTH() { assert(month_start(k) == t); }
    if k + 1 < LAST_MONTH() + 1 { lemma_month_mono(k + 1, LAST_MONTH() + 1); }
}
pub open spec fn floor_month_ok(t: int, k: int) -> bool {
    &&& 0 <= month_start(k) <= t
    &&& floor_of(t, Interval(MONTH_MS)) == month_start(k)
    &&& is_floor(month_start(k), t, Interval(MONTH_MS))
}
pub proof fn lemma_floor_month(t: int, k: int)
    requires month_of(t, k)
    ensures floor_month_ok(t, k)
{
    lemma_month_idx(t, k);
    lemma_month_facts(t, k);
    lemma_month_mono(k, k + 1);
}

/*@fn juno/src/primitives/timestamp.rs datetime_timestamp_ms
ret: r
spec:
    requires 0 <= dt@ <= MAX_NANOS(),
    ensures r == dt@ / 1_000_000,
head:
    proof { lemma_max_ts(); }
@*/
/*@fn juno/src/primitives/timestamp.rs datetime_utcfromtimestamp_ms
ret: r
spec:
    requires timestamp < MAX_TS(),
    ensures r@ == timestamp * 1_000_000,
head:
    proof { lemma_max_ts(); }
@*/
impl Interval {
/*@aconst juno/src/primitives/interval.rs Interval::SEC_MS
@*/
/*@aconst juno/src/primitives/interval.rs Interval::MIN_MS
@*/
/*@aconst juno/src/primitives/interval.rs Interval::HOUR_MS
@*/
/*@aconst juno/src/primitives/interval.rs Interval::DAY_MS
@*/
/*@aconst juno/src/primitives/interval.rs Interval::WEEK_MS
@*/
/*@aconst juno/src/primitives/interval.rs Interval::MONTH_MS
@*/
/*@aconst juno/src/primitives/interval.rs Interval::YEAR_MS
@*/
/*@fn juno/src/primitives/interval.rs Interval::ceil
ret: r
spec:
    requires interval.0 > 0, spec_ceil(self.0 as int, interval.0 as int) <= u64::MAX,
    ensures r.0 == spec_ceil(self.0 as int, interval.0 as int),
@*/
}
impl Timestamp {
/*@fn juno/src/primitives/timestamp.rs Timestamp::floor
ret: r
subst: UtcOffset::UTC => UtcOffset::utc()
spec:
    requires floor_dom(self.0 as int, interval),
    ensures r.0 == floor_of(self.0 as int, interval), is_floor(r.0 as int, self.0 as int, interval),
head:
    proof {
        lemma_max_ts();
        if interval.0 != MONTH_MS { lemma_alignment(self.0 as int, interval); }
        assert forall|k: int| #[trigger] month_of(self.0 as int, k) implies floor_month_ok(self.0 as int, k) by {
            lemma_floor_month(self.0 as int, k);
        }
    }
@*/
/*@fn juno/src/primitives/timestamp.rs Timestamp::ceil
ret: r
subst: UtcOffset::UTC => UtcOffset::utc()
spec:
    requires ceil_dom(self.0 as int, interval),
    ensures r.0 == ceil_of(self.0 as int, interval),
        is_ceil(r.0 as int, self.0 as int, interval) || interval.0 == WEEK_MS && self.0 < 345_600_000 && r.0 == 345_600_000,
head:
    proof {
        lemma_max_ts();
        if interval.0 != MONTH_MS { lemma_alignment(self.0 as int, interval); }
        if interval.0 == MONTH_MS {
            assert forall|k: int| #[trigger] month_of(self.0 as int, k) implies ceil_month_ok(self.0 as int, k) by {
                lemma_ceil_month(self.0 as int, k);
            }
        }
    }
@*/
}

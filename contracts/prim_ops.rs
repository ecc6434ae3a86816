// ==== juno/src/primitives: Interval, Timestamp ====
/*@const juno/src/primitives/interval.rs SEC_MS
@*/
/*@const juno/src/primitives/interval.rs MIN_MS
@*/
/*@const juno/src/primitives/interval.rs HOUR_MS
@*/
/*@const juno/src/primitives/interval.rs DAY_MS
@*/
/*@const juno/src/primitives/interval.rs WEEK_MS
@*/
/*@const juno/src/primitives/interval.rs MONTH_MS
@*/
/*@const juno/src/primitives/interval.rs YEAR_MS
@*/
/*@const juno/src/primitives/timestamp.rs WEEK_OFFSET_MS
@*/
/*@struct juno/src/primitives/interval.rs Interval
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/primitives/timestamp.rs Timestamp
attr:
    #[derive(Clone, Copy)]
@*/
// trusted: what #[derive(PartialEq, PartialOrd)] generates for the two newtypes
impl PartialEq for Interval { #[verifier::external_body] fn eq(&self, o: &Interval) -> bool { self.0 == o.0 } }
impl PartialEqSpecImpl<Interval> for Interval {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Interval) -> bool { self.0 == o.0 } }
impl PartialOrd for Interval { #[verifier::external_body] fn partial_cmp(&self, o: &Interval) -> Option<core::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl PartialOrdSpecImpl<Interval> for Interval {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Interval) -> Option<core::cmp::Ordering> {
        if self.0 < o.0 { Some(core::cmp::Ordering::Less) } else if self.0 > o.0 { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }
impl PartialEq for Timestamp { #[verifier::external_body] fn eq(&self, o: &Timestamp) -> bool { self.0 == o.0 } }
impl PartialEqSpecImpl<Timestamp> for Timestamp {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Timestamp) -> bool { self.0 == o.0 } }
impl PartialOrd for Timestamp { #[verifier::external_body] fn partial_cmp(&self, o: &Timestamp) -> Option<core::cmp::Ordering> { self.0.partial_cmp(&o.0) } }
impl PartialOrdSpecImpl<Timestamp> for Timestamp {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Timestamp) -> Option<core::cmp::Ordering> {
        if self.0 < o.0 { Some(core::cmp::Ordering::Less) } else if self.0 > o.0 { Some(core::cmp::Ordering::Greater) } else { Some(core::cmp::Ordering::Equal) } } }

// ---- operators of the two newtypes ----
impl Add<Interval> for Timestamp { type Output = Timestamp;
/*@fn juno/src/primitives/timestamp.rs Timestamp::Add::add
flag: novis
@*/
}
impl AddSpecImpl<Interval> for Timestamp {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Interval) -> bool { self.0 + o.0 <= u64::MAX }
    open spec fn add_spec(self, o: Interval) -> Timestamp { Timestamp((self.0 + o.0) as u64) } }
impl Sub for Timestamp { type Output = Interval;
/*@fn juno/src/primitives/timestamp.rs Timestamp::Sub::sub
flag: novis
@*/
}
impl SubSpecImpl<Timestamp> for Timestamp {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Timestamp) -> bool { self.0 >= o.0 }
    open spec fn sub_spec(self, o: Timestamp) -> Interval { Interval((self.0 - o.0) as u64) } }
impl Rem<Interval> for Timestamp { type Output = Timestamp;
/*@fn juno/src/primitives/timestamp.rs Timestamp::Rem::rem
flag: novis
@*/
}
impl RemSpecImpl<Interval> for Timestamp {
    open spec fn obeys_rem_spec() -> bool { true }
    open spec fn rem_req(self, o: Interval) -> bool { o.0 > 0 }
    open spec fn rem_spec(self, o: Interval) -> Timestamp { Timestamp((self.0 % o.0) as u64) } }
impl Add for Interval { type Output = Interval;
/*@fn juno/src/primitives/interval.rs Interval::Add::add
flag: novis
@*/
}
impl AddSpecImpl<Interval> for Interval {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Interval) -> bool { self.0 + o.0 <= u64::MAX }
    open spec fn add_spec(self, o: Interval) -> Interval { Interval((self.0 + o.0) as u64) } }
impl Mul<u64> for Interval { type Output = Interval;
/*@fn juno/src/primitives/interval.rs Interval::Mul::mul
flag: novis
@*/
}
impl MulSpecImpl<u64> for Interval {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: u64) -> bool { self.0 * o <= u64::MAX }
    open spec fn mul_spec(self, o: u64) -> Interval { Interval((self.0 * o) as u64) } }

// `a += b` is read as `a = a + b` in the extracted callers; this is what makes the two the same
impl Interval {
/*@fn juno/src/primitives/interval.rs Interval::AddAssign::add_assign
spec:
    requires old(self).0 + rhs.0 <= u64::MAX,
    ensures final(self).0 == old(self).0 + rhs.0,
@*/
}
impl From<u64> for Interval {
/*@fn juno/src/primitives/interval.rs Interval::From::from
flag: novis
@*/
}
impl FromSpecImpl<u64> for Interval {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u64) -> Interval { Interval(v) } }
impl Mul<Interval> for u64 { type Output = Interval;
/*@fn juno/src/primitives/interval.rs u64::Mul::mul
flag: novis
head:
    proof { assert(rhs.0 * self == self * rhs.0) by (nonlinear_arith); }
@*/
}
impl MulSpecImpl<Interval> for u64 {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Interval) -> bool { self * o.0 <= u64::MAX }
    open spec fn mul_spec(self, o: Interval) -> Interval { Interval((self * o.0) as u64) } }

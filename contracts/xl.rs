// ---- shim: f64 as extended real numbers (TRUSTED MODEL): exact arithmetic, with infinities and NaN ----
// v() is the value of a finite number. The sign of an infinity obtained by dividing by zero depends on the
// sign of the zero, which is not modelled: it is left open (xinf).
pub mod flm {
use super::*;
pub enum XR { R(real), Inf(bool), Nan }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fl { pub x: f64 }
impl Fl { pub uninterp spec fn x(self) -> XR;
    pub open spec fn fin(self) -> bool { self.x() is R }
    pub open spec fn v(self) -> real { self.x()->R_0 } }
pub uninterp spec fn mkx(r: XR) -> Fl;
pub open spec fn mk(r: real) -> Fl { mkx(XR::R(r)) }
pub broadcast axiom fn ax_mkx(r: XR) ensures (#[trigger] mkx(r)).x() == r;
pub broadcast axiom fn ax_ext(a: Fl) ensures mkx(#[trigger] a.x()) == a;
pub uninterp spec fn xinf(a: XR, b: XR) -> bool;
pub open spec fn xadd(a: XR, b: XR) -> XR { match (a, b) {
    (XR::R(p), XR::R(q)) => XR::R(p + q),
    (XR::Nan, _) => XR::Nan, (_, XR::Nan) => XR::Nan,
    (XR::Inf(s), XR::Inf(t)) => if s == t { a } else { XR::Nan },
    (XR::Inf(s), _) => a, (_, XR::Inf(t)) => b } }
pub open spec fn xneg(a: XR) -> XR { match a { XR::R(p) => XR::R(-p), XR::Inf(s) => XR::Inf(!s), XR::Nan => XR::Nan } }
pub open spec fn xsub(a: XR, b: XR) -> XR { xadd(a, xneg(b)) }
pub open spec fn xmul(a: XR, b: XR) -> XR { match (a, b) {
    (XR::R(p), XR::R(q)) => XR::R(p * q),
    (XR::Nan, _) => XR::Nan, (_, XR::Nan) => XR::Nan,
    (XR::Inf(s), XR::Inf(t)) => XR::Inf(s == t),
    (XR::Inf(s), XR::R(q)) => if q == 0real { XR::Nan } else { XR::Inf(s == (q > 0real)) },
    (XR::R(p), XR::Inf(t)) => if p == 0real { XR::Nan } else { XR::Inf(t == (p > 0real)) } } }
pub open spec fn xdiv(a: XR, b: XR) -> XR { match (a, b) {
    (XR::Nan, _) => XR::Nan, (_, XR::Nan) => XR::Nan,
    (XR::R(p), XR::R(q)) => if q != 0real { XR::R(p / q) } else if p == 0real { XR::Nan } else { XR::Inf(xinf(a, b)) },
    (XR::R(p), XR::Inf(t)) => XR::R(0real),
    (XR::Inf(s), XR::R(q)) => if q == 0real { XR::Inf(xinf(a, b)) } else { XR::Inf(s == (q > 0real)) },
    (XR::Inf(s), XR::Inf(t)) => XR::Nan } }
pub open spec fn xlt(a: XR, b: XR) -> bool { match (a, b) {
    (XR::R(p), XR::R(q)) => p < q, (XR::Nan, _) => false, (_, XR::Nan) => false,
    (XR::Inf(s), XR::Inf(t)) => !s && t, (XR::Inf(s), _) => !s, (_, XR::Inf(t)) => t } }
pub open spec fn xeq(a: XR, b: XR) -> bool { !(a is Nan) && a == b }
pub open spec fn xsqrt(a: XR) -> XR { match a { XR::R(p) => if p >= 0real { XR::R(rsqrt(p)) } else { XR::Nan }, XR::Inf(s) => if s { a } else { XR::Nan }, XR::Nan => XR::Nan } }
pub open spec fn xln(a: XR) -> XR { match a {
    XR::R(p) => if p > 0real { XR::R(rln(p)) } else if p == 0real { XR::Inf(false) } else { XR::Nan },
    XR::Inf(s) => if s { a } else { XR::Nan }, XR::Nan => XR::Nan } }
pub open spec fn is_int(r: real) -> bool { r == rfloor(r) as real }
pub uninterp spec fn xpow_other(a: XR, b: XR) -> XR;
pub open spec fn xpowf(a: XR, b: XR) -> XR { match (a, b) {
    (XR::R(p), XR::R(q)) => if p > 0real || (p == 0real && q >= 0real) || (p < 0real && is_int(q)) { XR::R(rpowf(p, q)) } else if p == 0real { XR::Inf(xinf(a, b)) } else { XR::Nan },
    _ => xpow_other(a, b) } }

pub uninterp spec fn rfloor(x: real) -> int;
pub broadcast axiom fn ax_floor(x: real)
    ensures (#[trigger] rfloor(x)) as real <= x, x < rfloor(x) as real + 1real;
pub uninterp spec fn rsqrt(x: real) -> real;
pub broadcast axiom fn ax_sqrt(x: real)
    ensures x >= 0real ==> (#[trigger] rsqrt(x)) >= 0real && rsqrt(x) * rsqrt(x) == x;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn xexp(a: XR) -> XR;
pub uninterp spec fn rpowf(x: real, y: real) -> real;
pub broadcast group fl_axioms { ax_mkx, ax_ext, ax_floor, ax_sqrt }

impl Add for Fl { type Output = Fl;
    #[verifier::external_body]
    fn add(self, o: Fl) -> Fl { Fl { x: self.x + o.x } } }
impl AddSpecImpl<Fl> for Fl {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Fl) -> bool { true }
    open spec fn add_spec(self, o: Fl) -> Fl { mkx(xadd(self.x(), o.x())) } }
impl Sub for Fl { type Output = Fl;
    #[verifier::external_body]
    fn sub(self, o: Fl) -> Fl { Fl { x: self.x - o.x } } }
impl SubSpecImpl<Fl> for Fl {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Fl) -> bool { true }
    open spec fn sub_spec(self, o: Fl) -> Fl { mkx(xsub(self.x(), o.x())) } }
impl Mul for Fl { type Output = Fl;
    #[verifier::external_body]
    fn mul(self, o: Fl) -> Fl { Fl { x: self.x * o.x } } }
impl MulSpecImpl<Fl> for Fl {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Fl) -> bool { true }
    open spec fn mul_spec(self, o: Fl) -> Fl { mkx(xmul(self.x(), o.x())) } }
impl Div for Fl { type Output = Fl;
    #[verifier::external_body]
    fn div(self, o: Fl) -> Fl { Fl { x: self.x / o.x } } }
impl DivSpecImpl<Fl> for Fl {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Fl) -> bool { true }
    open spec fn div_spec(self, o: Fl) -> Fl { mkx(xdiv(self.x(), o.x())) } }
impl Add<&Fl> for Fl { type Output = Fl;
    #[verifier::external_body]
    fn add(self, o: &Fl) -> Fl { Fl { x: self.x + o.x } } }
impl AddSpecImpl<&Fl> for Fl {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: &Fl) -> bool { true }
    open spec fn add_spec(self, o: &Fl) -> Fl { mkx(xadd(self.x(), o.x())) } }
impl Sub<&Fl> for Fl { type Output = Fl;
    #[verifier::external_body]
    fn sub(self, o: &Fl) -> Fl { Fl { x: self.x - o.x } } }
impl SubSpecImpl<&Fl> for Fl {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: &Fl) -> bool { true }
    open spec fn sub_spec(self, o: &Fl) -> Fl { mkx(xsub(self.x(), o.x())) } }
impl Mul<&Fl> for Fl { type Output = Fl;
    #[verifier::external_body]
    fn mul(self, o: &Fl) -> Fl { Fl { x: self.x * o.x } } }
impl MulSpecImpl<&Fl> for Fl {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &Fl) -> bool { true }
    open spec fn mul_spec(self, o: &Fl) -> Fl { mkx(xmul(self.x(), o.x())) } }
impl Div<&Fl> for Fl { type Output = Fl;
    #[verifier::external_body]
    fn div(self, o: &Fl) -> Fl { Fl { x: self.x / o.x } } }
impl DivSpecImpl<&Fl> for Fl {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: &Fl) -> bool { true }
    open spec fn div_spec(self, o: &Fl) -> Fl { mkx(xdiv(self.x(), o.x())) } }
impl Neg for Fl { type Output = Fl;
    #[verifier::external_body]
    fn neg(self) -> Fl { Fl { x: -self.x } } }
impl NegSpecImpl for Fl {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Fl { mkx(xneg(self.x())) } }
impl PartialEq for Fl {
    #[verifier::external_body]
    fn eq(&self, o: &Fl) -> bool { self.x == o.x } }
impl PartialEqSpecImpl<Fl> for Fl {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fl) -> bool { xeq(self.x(), o.x()) } }
impl PartialOrd for Fl {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Fl) -> Option<core::cmp::Ordering> { self.x.partial_cmp(&o.x) } }
impl PartialOrdSpecImpl<Fl> for Fl {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fl) -> Option<core::cmp::Ordering> {
        if xlt(self.x(), o.x()) { Some(core::cmp::Ordering::Less) }
        else if xlt(o.x(), self.x()) { Some(core::cmp::Ordering::Greater) }
        else if xeq(self.x(), o.x()) { Some(core::cmp::Ordering::Equal) } else { None } } }
impl From<u32> for Fl {
    #[verifier::external_body]
    fn from(x: u32) -> Fl { Fl { x: x as f64 } } }
impl FromSpecImpl<u32> for Fl {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: u32) -> Fl { mkx(XR::R(x as real)) } }
pub trait AsFl: Sized { spec fn as_real(self) -> XR; fn as_fl(self) -> (r: Fl) ensures r.x() == self.as_real(); }
impl AsFl for u64 { open spec fn as_real(self) -> XR { XR::R(self as real) }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { Fl { x: self as f64 } } }
impl AsFl for u32 { open spec fn as_real(self) -> XR { XR::R(self as real) }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { Fl { x: self as f64 } } }
impl AsFl for usize { open spec fn as_real(self) -> XR { XR::R(self as real) }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { Fl { x: self as f64 } } }
impl AsFl for i32 { open spec fn as_real(self) -> XR { XR::R(self as real) }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { Fl { x: self as f64 } } }
impl AsFl for Fl { open spec fn as_real(self) -> XR { self.x() }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { self } }
pub open spec fn xmax(a: XR, b: XR) -> XR { if a is Nan { b } else if b is Nan { a } else if xlt(a, b) { b } else { a } }
pub open spec fn xmin(a: XR, b: XR) -> XR { if a is Nan { b } else if b is Nan { a } else if xlt(b, a) { b } else { a } }
impl Fl {
    #[verifier::external_body]
    pub const fn lit(x: f64, Ghost(r): Ghost<real>) -> (f: Fl) ensures f.x() == XR::R(r) { Fl { x } }
    #[verifier::external_body]
    pub fn c_NAN() -> (f: Fl) ensures f.x() is Nan { Fl { x: f64::NAN } }
    #[verifier::external_body]
    pub fn c_INFINITY() -> (f: Fl) ensures f.x() == XR::Inf(true) { Fl { x: f64::INFINITY } }
    #[verifier::external_body]
    pub fn c_NEG_INFINITY() -> (f: Fl) ensures f.x() == XR::Inf(false) { Fl { x: f64::NEG_INFINITY } }
    #[verifier::external_body]
    pub fn max(self, o: Fl) -> (r: Fl) ensures r.x() == xmax(self.x(), o.x()) { Fl { x: self.x.max(o.x) } }
    #[verifier::external_body]
    pub fn min(self, o: Fl) -> (r: Fl) ensures r.x() == xmin(self.x(), o.x()) { Fl { x: self.x.min(o.x) } }
    #[verifier::external_body]
    pub fn abs(self) -> (r: Fl) ensures r.x() == (if xlt(self.x(), XR::R(0real)) { xneg(self.x()) } else { self.x() }) { Fl { x: self.x.abs() } }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: Fl) ensures r.x() == xsqrt(self.x()) { Fl { x: self.x.sqrt() } }
    #[verifier::external_body]
    pub fn ln(self) -> (r: Fl) ensures r.x() == xln(self.x()) { Fl { x: self.x.ln() } }
    #[verifier::external_body]
    pub fn powf(self, y: Fl) -> (r: Fl) ensures r.x() == xpowf(self.x(), y.x()) { Fl { x: self.x.powf(y.x) } }
    #[verifier::external_body]
    pub fn floor(self) -> (r: Fl) ensures r.x() == (match self.x() { XR::R(p) => XR::R(rfloor(p) as real), x => x }) { Fl { x: self.x.floor() } }
    #[verifier::external_body]
    pub fn exp(self) -> (r: Fl) ensures r.x() == xexp(self.x()) { Fl { x: self.x.exp() } }
    // `as u32` saturates: any value is converted
    #[verifier::external_body]
    pub fn to_u32(self) -> (r: u32) ensures self.x() is R && 0real <= self.v() && rfloor(self.v()) <= u32::MAX ==> r == rfloor(self.v()) { self.x as u32 }
    #[verifier::external_body]
    pub fn c_MAX() -> (r: Fl) ensures r.x() is R { Fl { x: f64::MAX } }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == self.x() is Nan { self.x.is_nan() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == self.x() is R { self.x.is_finite() }
    #[verifier::external_body]
    pub fn is_infinite(self) -> (r: bool) ensures r == self.x() is Inf { self.x.is_infinite() }
    #[verifier::external_body]
    pub fn is_normal(self) -> (r: bool) ensures r ==> self.x() is R && self.v() != 0real { self.x.is_normal() }
}
}
pub use flm::*;
//@broadcast flm::fl_axioms

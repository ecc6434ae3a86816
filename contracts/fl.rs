// ---- shim: f64 / f32 as exact real numbers (TRUSTED MODEL, see DESIGN.md "idealised reals") ----
// `Fl` replaces f64/f32 in the extracted text. v() is its mathematical value. Operators are exact.
// Division, sqrt, ln, log10 demand that they are defined: that obligation is what proves "no NaN,
// no infinity" for the code under contract.
pub mod flm {
use super::*;
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Fl { pub x: f64 }
impl Fl { pub uninterp spec fn v(self) -> real; pub open spec fn fin(self) -> bool { true } }
pub uninterp spec fn mk(r: real) -> Fl;
pub broadcast axiom fn ax_mk(r: real) ensures #[trigger] mk(r).v() == r;
pub broadcast axiom fn ax_ext(a: Fl) ensures mk(#[trigger] a.v()) == a;

pub uninterp spec fn rfloor(x: real) -> int;
pub broadcast axiom fn ax_floor(x: real)
    ensures (#[trigger] rfloor(x)) as real <= x, x < rfloor(x) as real + 1real;
pub open spec fn rceil(x: real) -> int { -rfloor(-x) }
pub open spec fn rround(x: real) -> int { if x >= 0real { rfloor(x + 0.5real) } else { -rfloor(-x + 0.5real) } }
pub open spec fn rabs(x: real) -> real { if x < 0real { -x } else { x } }
pub open spec fn rmax(x: real, y: real) -> real { if x >= y { x } else { y } }
pub open spec fn rmin(x: real, y: real) -> real { if x <= y { x } else { y } }
pub open spec fn rpow(x: real, n: nat) -> real decreases n { if n == 0 { 1real } else { x * rpow(x, (n - 1) as nat) } }
pub uninterp spec fn rsqrt(x: real) -> real;
pub broadcast axiom fn ax_sqrt(x: real)
    ensures x >= 0real ==> (#[trigger] rsqrt(x)) >= 0real && rsqrt(x) * rsqrt(x) == x;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rlog10(x: real) -> real;
pub uninterp spec fn rexp(x: real) -> real;
pub broadcast axiom fn ax_exp(x: real) ensures #[trigger] rexp(x) > 0real;
pub uninterp spec fn rpowf(x: real, y: real) -> real;
pub broadcast axiom fn ax_powf2(x: real) ensures #[trigger] rpowf(x, 2real) == x * x;
pub uninterp spec fn FEPS() -> real;
pub axiom fn ax_feps() ensures 0real < FEPS() < 0.000001real;
pub uninterp spec fn FMAX() -> real;
pub axiom fn ax_fmax() ensures FMAX() > 1000000real;

// products commute
pub broadcast proof fn lemma_comm(a: Fl, b: Fl) ensures #[trigger] MulSpec::mul_spec(a, b) == MulSpec::mul_spec(b, a) { let (x, y) = (a.v(), b.v()); assert(x * y == y * x) by (nonlinear_arith); }
pub broadcast group fl_axioms { ax_mk, ax_ext, ax_floor, ax_sqrt, ax_exp, ax_powf2, lemma_comm }

impl Add for Fl { type Output = Fl;
    #[verifier::external_body]
    fn add(self, o: Fl) -> Fl { Fl { x: self.x + o.x } } }
impl AddSpecImpl<Fl> for Fl {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Fl) -> bool { true }
    open spec fn add_spec(self, o: Fl) -> Fl { mk(self.v() + o.v()) } }
impl Sub for Fl { type Output = Fl;
    #[verifier::external_body]
    fn sub(self, o: Fl) -> Fl { Fl { x: self.x - o.x } } }
impl SubSpecImpl<Fl> for Fl {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Fl) -> bool { true }
    open spec fn sub_spec(self, o: Fl) -> Fl { mk(self.v() - o.v()) } }
impl Mul for Fl { type Output = Fl;
    #[verifier::external_body]
    fn mul(self, o: Fl) -> Fl { Fl { x: self.x * o.x } } }
impl MulSpecImpl<Fl> for Fl {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: Fl) -> bool { true }
    open spec fn mul_spec(self, o: Fl) -> Fl { mk(self.v() * o.v()) } }
impl Div for Fl { type Output = Fl;
    #[verifier::external_body]
    fn div(self, o: Fl) -> Fl { Fl { x: self.x / o.x } } }
impl DivSpecImpl<Fl> for Fl {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: Fl) -> bool { o.v() != 0real }
    open spec fn div_spec(self, o: Fl) -> Fl { mk(self.v() / o.v()) } }
impl Add<&Fl> for Fl { type Output = Fl;
    #[verifier::external_body]
    fn add(self, o: &Fl) -> Fl { Fl { x: self.x + o.x } } }
impl AddSpecImpl<&Fl> for Fl {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: &Fl) -> bool { true }
    open spec fn add_spec(self, o: &Fl) -> Fl { mk(self.v() + o.v()) } }
impl Sub<&Fl> for Fl { type Output = Fl;
    #[verifier::external_body]
    fn sub(self, o: &Fl) -> Fl { Fl { x: self.x - o.x } } }
impl SubSpecImpl<&Fl> for Fl {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: &Fl) -> bool { true }
    open spec fn sub_spec(self, o: &Fl) -> Fl { mk(self.v() - o.v()) } }
impl Mul<&Fl> for Fl { type Output = Fl;
    #[verifier::external_body]
    fn mul(self, o: &Fl) -> Fl { Fl { x: self.x * o.x } } }
impl MulSpecImpl<&Fl> for Fl {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: &Fl) -> bool { true }
    open spec fn mul_spec(self, o: &Fl) -> Fl { mk(self.v() * o.v()) } }
impl Div<&Fl> for Fl { type Output = Fl;
    #[verifier::external_body]
    fn div(self, o: &Fl) -> Fl { Fl { x: self.x / o.x } } }
impl DivSpecImpl<&Fl> for Fl {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: &Fl) -> bool { o.v() != 0real }
    open spec fn div_spec(self, o: &Fl) -> Fl { mk(self.v() / o.v()) } }
impl Neg for Fl { type Output = Fl;
    #[verifier::external_body]
    fn neg(self) -> Fl { Fl { x: -self.x } } }
impl NegSpecImpl for Fl {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> Fl { mk(-self.v()) } }
impl PartialEq for Fl {
    #[verifier::external_body]
    fn eq(&self, o: &Fl) -> bool { self.x == o.x } }
impl PartialEqSpecImpl<Fl> for Fl {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Fl) -> bool { self.v() == o.v() } }
impl PartialOrd for Fl {
    #[verifier::external_body]
    fn partial_cmp(&self, o: &Fl) -> Option<core::cmp::Ordering> { self.x.partial_cmp(&o.x) } }
impl PartialOrdSpecImpl<Fl> for Fl {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fl) -> Option<core::cmp::Ordering> {
        if self.v() < o.v() { Some(core::cmp::Ordering::Less) }
        else if self.v() > o.v() { Some(core::cmp::Ordering::Greater) }
        else { Some(core::cmp::Ordering::Equal) } } }
impl From<u32> for Fl {
    #[verifier::external_body]
    fn from(x: u32) -> Fl { Fl { x: x as f64 } } }
impl FromSpecImpl<u32> for Fl {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: u32) -> Fl { mk(x as real) } }

pub trait AsFl: Sized { spec fn as_real(self) -> real; fn as_fl(self) -> (r: Fl) ensures r.v() == self.as_real(); }
impl AsFl for u64 { open spec fn as_real(self) -> real { self as real }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { Fl { x: self as f64 } } }
impl AsFl for u32 { open spec fn as_real(self) -> real { self as real }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { Fl { x: self as f64 } } }
impl AsFl for usize { open spec fn as_real(self) -> real { self as real }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { Fl { x: self as f64 } } }
impl AsFl for i32 { open spec fn as_real(self) -> real { self as real }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { Fl { x: self as f64 } } }
impl AsFl for Fl { open spec fn as_real(self) -> real { self.v() }
    #[verifier::external_body] fn as_fl(self) -> (r: Fl) { self } }

impl Fl {
    #[verifier::external_body]
    pub const fn lit(x: f64, Ghost(r): Ghost<real>) -> (f: Fl) ensures f.v() == r { Fl { x } }
    #[verifier::external_body]
    pub fn max(self, o: Fl) -> (r: Fl) ensures r.v() == rmax(self.v(), o.v()) { Fl { x: self.x.max(o.x) } }
    #[verifier::external_body]
    pub fn min(self, o: Fl) -> (r: Fl) ensures r.v() == rmin(self.v(), o.v()) { Fl { x: self.x.min(o.x) } }
    #[verifier::external_body]
    pub fn abs(self) -> (r: Fl) ensures r.v() == rabs(self.v()) { Fl { x: self.x.abs() } }
    #[verifier::external_body]
    pub fn floor(self) -> (r: Fl) ensures r.v() == rfloor(self.v()) as real { Fl { x: self.x.floor() } }
    #[verifier::external_body]
    pub fn ceil(self) -> (r: Fl) ensures r.v() == rceil(self.v()) as real { Fl { x: self.x.ceil() } }
    #[verifier::external_body]
    pub fn round(self) -> (r: Fl) ensures r.v() == rround(self.v()) as real { Fl { x: self.x.round() } }
    #[verifier::external_body]
    pub fn sqrt(self) -> (r: Fl) requires self.v() >= 0real ensures r.v() == rsqrt(self.v()) { Fl { x: self.x.sqrt() } }
    #[verifier::external_body]
    pub fn ln(self) -> (r: Fl) requires self.v() > 0real ensures r.v() == rln(self.v()) { Fl { x: self.x.ln() } }
    #[verifier::external_body]
    pub fn log10(self) -> (r: Fl) requires self.v() > 0real ensures r.v() == rlog10(self.v()) { Fl { x: self.x.log10() } }
    #[verifier::external_body]
    pub fn exp(self) -> (r: Fl) ensures r.v() == rexp(self.v()) { Fl { x: self.x.exp() } }
    #[verifier::external_body]
    pub fn powf(self, y: Fl) -> (r: Fl) requires self.v() >= 0real || y.v() == rfloor(y.v()) as real
        ensures r.v() == rpowf(self.v(), y.v()) { Fl { x: self.x.powf(y.x) } }
    #[verifier::external_body]
    pub fn powi(self, n: i32) -> (r: Fl) requires n >= 0 ensures r.v() == rpow(self.v(), n as nat) { Fl { x: self.x.powi(n) } }
    #[verifier::external_body]
    pub fn is_nan(self) -> (r: bool) ensures r == false { self.x.is_nan() }
    #[verifier::external_body]
    pub fn is_finite(self) -> (r: bool) ensures r == true { self.x.is_finite() }
    #[verifier::external_body]
    pub fn to_u64(self) -> (r: u64)
        ensures 0real <= self.v() && rfloor(self.v()) <= u64::MAX ==> r == rfloor(self.v()) { self.x as u64 }
    #[verifier::external_body]
    pub fn to_u32(self) -> (r: u32)
        ensures 0real <= self.v() && rfloor(self.v()) <= u32::MAX ==> r == rfloor(self.v()) { self.x as u32 }
    #[verifier::external_body]
    pub fn to_usize(self) -> (r: usize)
        ensures 0real <= self.v() && rfloor(self.v()) <= usize::MAX ==> r == rfloor(self.v()) { self.x as usize }
    #[verifier::external_body]
    pub fn c_MAX() -> (r: Fl) ensures r.v() == FMAX() { Fl { x: f64::MAX } }
    #[verifier::external_body]
    pub fn c_EPSILON() -> (r: Fl) ensures r.v() == FEPS() { Fl { x: f64::EPSILON } }
    #[verifier::external_body]
    pub fn c_MIN() -> (r: Fl) ensures r.v() == -FMAX() { Fl { x: f64::MIN } }
}
}
pub use flm::*;
//@broadcast flm::fl_axioms

// ==== juno/src/filters.rs, juno/src/math.rs: rounding ====
pub mod rndm { use super::*;
broadcast use fl_axioms;
pub open spec fn times(k: int, step: real) -> real { k as real * step }
pub open spec fn is_multiple(x: real, step: real) -> bool { exists|k: int| x == #[trigger] times(k, step) }
// the largest multiple of step that is not above x
pub open spec fn largest_multiple(r: real, x: real, step: real) -> bool { is_multiple(r, step) && r <= x && x < r + step }
pub open spec fn cap(x: real, max: real) -> real { if max > 0real && x > max { max } else { x } }
pub open spec fn filter_ok(min: real, max: real, step: real, x: real, r: real) -> bool {
    if x < min { r == 0real }
    else if step > 0real { largest_multiple(r, cap(x, max), step) }
    else { r == cap(x, max) } }
pub proof fn lemma_step(x: real, step: real)
    requires step > 0real
    ensures largest_multiple(times(rfloor(x / step), step), x, step), x >= 0real ==> rfloor(x / step) as real * step >= 0real
{
    ax_floor(x / step);
    let q = rfloor(x / step);
    assert(q as real * step <= x) by (nonlinear_arith) requires q as real <= x / step, step > 0real {}
    assert(x < q as real * step + step) by (nonlinear_arith) requires x / step < q as real + 1real, step > 0real {}
    if x >= 0real {
        assert(x / step >= 0real) by (nonlinear_arith) requires x >= 0real, step > 0real {}
        assert(q >= 0);
        assert(q as real * step >= 0real) by (nonlinear_arith) requires q >= 0, step > 0real {}
    }
}
pub proof fn lemma_pow_pos(n: nat) ensures rpow(10real, n) > 0real decreases n
{ if n > 0 { lemma_pow_pos((n - 1) as nat); assert(rpow(10real, n) > 0real) by (nonlinear_arith) requires rpow(10real, n) == 10real * rpow(10real, (n - 1) as nat), rpow(10real, (n - 1) as nat) > 0real {} } }
// r is a multiple of 1/f
pub open spec fn toreal(k: int) -> real { k as real }
pub open spec fn dec_multiple(r: real, f: real) -> bool { exists|k: int| r * f == #[trigger] toreal(k) }
pub proof fn lemma_dec(v: real, f: real, k: int)
    requires f > 0real
    ensures (k as real / f) * f == toreal(k), dec_multiple(k as real / f, f),
        k as real <= v * f ==> k as real / f <= v, v * f < k as real + 1real ==> v < k as real / f + 1real / f,
        v * f <= k as real + 0.5real ==> v <= k as real / f + 0.5real / f, v * f >= k as real - 0.5real ==> v >= k as real / f - 0.5real / f,
        v * f < k as real + 0.5real ==> v < k as real / f + 0.5real / f, v * f > k as real - 0.5real ==> v > k as real / f - 0.5real / f,
{
    let r = k as real / f; let u = 1real / f; let h = 0.5real / f;
    assert(r * f == k as real) by (nonlinear_arith) requires r == k as real / f, f > 0real {}
    assert(u * f == 1real) by (nonlinear_arith) requires u == 1real / f, f > 0real {}
    assert(h * f == 0.5real) by (nonlinear_arith) requires h == 0.5real / f, f > 0real {}
    if k as real <= v * f { assert(r <= v) by (nonlinear_arith) requires r * f <= v * f, f > 0real {} }
    assert((r + u) * f == k as real + 1real) by (nonlinear_arith) requires r * f == k as real, u * f == 1real {}
    assert((r + h) * f == k as real + 0.5real) by (nonlinear_arith) requires r * f == k as real, h * f == 0.5real {}
    assert((r - h) * f == k as real - 0.5real) by (nonlinear_arith) requires r * f == k as real, h * f == 0.5real {}
    if v * f < k as real + 1real { assert(v < r + u) by (nonlinear_arith) requires v * f < (r + u) * f, f > 0real {} }
    if v * f <= k as real + 0.5real { assert(v <= r + h) by (nonlinear_arith) requires v * f <= (r + h) * f, f > 0real {} }
    if v * f >= k as real - 0.5real { assert(v >= r - h) by (nonlinear_arith) requires v * f >= (r - h) * f, f > 0real {} }
    if v * f < k as real + 0.5real { assert(v < r + h) by (nonlinear_arith) requires v * f < (r + h) * f, f > 0real {} }
    if v * f > k as real - 0.5real { assert(v > r - h) by (nonlinear_arith) requires v * f > (r - h) * f, f > 0real {} }
}
// r is v rounded down / half up to p decimals
pub open spec fn rd(v: real, p: u32, r: real) -> bool { dec_multiple(r, rpow(10real, p as nat)) && r <= v < r + 1real / rpow(10real, p as nat) }
pub open spec fn rhu(v: real, p: u32, r: real) -> bool {
    let h = 0.5real / rpow(10real, p as nat);
    dec_multiple(r, rpow(10real, p as nat)) && (if v >= 0real { r - h <= v < r + h } else { r - h < v <= r + h }) }
// each of the three has exactly one result
pub open spec fn the_size(min: real, max: real, step: real, x: real) -> real {
    if x < min { 0real } else if step > 0real { times(rfloor(cap(x, max) / step), step) } else { cap(x, max) } }
pub open spec fn the_rd(v: real, p: u32) -> real { rfloor(v * rpow(10real, p as nat)) as real / rpow(10real, p as nat) }
pub open spec fn the_rhu(v: real, p: u32) -> real { rround(v * rpow(10real, p as nat)) as real / rpow(10real, p as nat) }
pub broadcast proof fn lemma_the_size(min: real, max: real, step: real, x: real, r: real)
    ensures #[trigger] filter_ok(min, max, step, x, r) ==> r == the_size(min, max, step, x)
{
    if filter_ok(min, max, step, x, r) && x >= min && step > 0real {
        let y = cap(x, max);
        lemma_step(y, step);
        let k = choose|k: int| r == #[trigger] times(k, step);
        let q = rfloor(y / step);
        let (kr, qr) = (k as real, q as real);
        assert(kr < qr + 1real) by (nonlinear_arith) requires kr * step <= y, y < qr * step + step, step > 0real {}
        assert(qr < kr + 1real) by (nonlinear_arith) requires qr * step <= y, y < kr * step + step, step > 0real {}
    }
}
pub broadcast proof fn lemma_the_rd(v: real, p: u32, r: real)
    ensures #[trigger] rd(v, p, r) ==> r == the_rd(v, p)
{
    if rd(v, p, r) {
        let f = rpow(10real, p as nat);
        lemma_pow_pos(p as nat);
        let k = choose|k: int| r * f == #[trigger] toreal(k);
        let u = 1real / f;
        assert(u * f == 1real) by (nonlinear_arith) requires u == 1real / f, f > 0real {}
        assert(r * f <= v * f) by (nonlinear_arith) requires r <= v, f > 0real {}
        assert(v * f < r * f + 1real) by (nonlinear_arith) requires v < r + u, u * f == 1real, f > 0real {}
        ax_floor(v * f);
        assert(k == rfloor(v * f));
        assert(r == k as real / f) by (nonlinear_arith) requires r * f == k as real, f > 0real {}
    }
}
pub broadcast proof fn lemma_the_rhu(v: real, p: u32, r: real)
    ensures #[trigger] rhu(v, p, r) ==> r == the_rhu(v, p)
{
    if rhu(v, p, r) {
        let f = rpow(10real, p as nat);
        lemma_pow_pos(p as nat);
        let k = choose|k: int| r * f == #[trigger] toreal(k);
        let h = 0.5real / f;
        assert(h * f == 0.5real) by (nonlinear_arith) requires h == 0.5real / f, f > 0real {}
        ax_floor(v * f + 0.5real); ax_floor(-(v * f) + 0.5real);
        if v >= 0real {
            assert(v * f >= 0real) by (nonlinear_arith) requires v >= 0real, f > 0real {}
            assert(r * f - 0.5real <= v * f) by (nonlinear_arith) requires r - h <= v, h * f == 0.5real, f > 0real {}
            assert(v * f < r * f + 0.5real) by (nonlinear_arith) requires v < r + h, h * f == 0.5real, f > 0real {}
            assert(k == rfloor(v * f + 0.5real));
        } else {
            assert(v * f < 0real) by (nonlinear_arith) requires v < 0real, f > 0real {}
            assert(r * f - 0.5real < v * f) by (nonlinear_arith) requires r - h < v, h * f == 0.5real, f > 0real {}
            assert(v * f <= r * f + 0.5real) by (nonlinear_arith) requires v <= r + h, h * f == 0.5real, f > 0real {}
            assert(k == -rfloor(-(v * f) + 0.5real));
        }
        assert(r == k as real / f) by (nonlinear_arith) requires r * f == k as real, f > 0real {}
    }
}
}
pub use rndm::*;
/*@struct juno/src/filters.rs Price
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/filters.rs Size
attr:
    #[derive(Clone, Copy)]
@*/
impl Price {
/*@fn juno/src/filters.rs Price::round_down
ret: r
spec:
    requires self.min.v() >= 0real, self.max.v() >= 0real, self.step.v() >= 0real, price.v() >= 0real,
    ensures filter_ok(self.min.v(), self.max.v(), self.step.v(), price.v(), r.v()),
        r.v() <= price.v(), self.max.v() > 0real ==> r.v() <= self.max.v(), r.v() >= 0real,
head:
    proof { if self.step.v() > 0real { lemma_step(cap(price.v(), self.max.v()), self.step.v()); } }
@*/
}
impl Size {
/*@fn juno/src/filters.rs Size::round_down
ret: r
spec:
    requires self.min.v() >= 0real, self.max.v() >= 0real, self.step.v() >= 0real,
    ensures filter_ok(self.min.v(), self.max.v(), self.step.v(), size.v(), r.v()),
        size.v() >= 0real ==> r.v() <= size.v(), self.max.v() > 0real ==> r.v() <= self.max.v(), r.v() >= 0real,
head:
    proof { if self.step.v() > 0real { lemma_step(cap(size.v(), self.max.v()), self.step.v()); } }
@*/
}
/*@fn juno/src/math.rs round_down
ret: r
spec:
    requires precision <= 300,
    ensures rd(value.v(), precision, r.v()),
head:
    proof {
        let f = rpow(10real, precision as nat);
        lemma_pow_pos(precision as nat);
        lemma_dec(value.v(), f, rfloor(value.v() * f));
        ax_floor(value.v() * f);
    }
@*/
/*@fn juno/src/math.rs round_half_up
ret: r
spec:
    requires precision <= 300,
    ensures rhu(value.v(), precision, r.v()),
head:
    proof {
        let f = rpow(10real, precision as nat);
        lemma_pow_pos(precision as nat);
        lemma_dec(value.v(), f, rround(value.v() * f));
        ax_floor(value.v() * f + 0.5real); ax_floor(-(value.v() * f) + 0.5real);
        if value.v() >= 0real { assert(value.v() * f >= 0real) by (nonlinear_arith) requires value.v() >= 0real, f > 0real {} }
        else { assert(value.v() * f < 0real) by (nonlinear_arith) requires value.v() < 0real, f > 0real {} }
    }
@*/

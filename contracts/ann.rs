//@include annm.rs
pub proof fn lemma_years(d: int)
    requires d >= 0,
    ensures (d as real / ANN_YEAR() == 0real) == (d == 0), d > 0 ==> 1real / (d as real / ANN_YEAR()) > 0real,
{
    let n = d as real / ANN_YEAR();
    assert(n * ANN_YEAR() == d as real) by (nonlinear_arith) requires n == d as real / ANN_YEAR(), ANN_YEAR() == 31556952000real;
    if d > 0 {
        assert(n > 0real) by (nonlinear_arith) requires n * ANN_YEAR() == d as real, d > 0, ANN_YEAR() == 31556952000real;
        assert(1real / n > 0real) by (nonlinear_arith) requires n > 0real;
    } else { assert(n == 0real) by (nonlinear_arith) requires n * ANN_YEAR() == 0real, ANN_YEAR() == 31556952000real; }
}
/*@fn juno/src/math.rs annualized
ret: r
spec:
    requires value.fin(),
    ensures r.fin(), r.v() == the_annual(duration as int, value.v()),
head:
    proof { lemma_years(duration as int); reveal(xpowf); }
@*/

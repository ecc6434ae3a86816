pub open spec fn ANN_YEAR() -> real { 31556952000real }
// return v over d milliseconds, compounded to a year; zero without duration or where the root does not exist
pub open spec fn the_annual(d: int, v: real) -> real {
    let n = d as real / ANN_YEAR();
    if d == 0 { 0real }
    else if 1real + v >= 0real || 1real / n == rfloor(1real / n) as real { rpowf(1real + v, 1real / n) - 1real } else { 0real } }

// ==== juno/src/math.rs: integer part ====
pub open spec fn spec_floor(v: int, m: int) -> int { v - v % m }
pub open spec fn spec_ceil(v: int, m: int) -> int { if v % m == 0 { v } else { v - v % m + m } }
// smallest non-negative x >= v with x = off (mod m)
pub open spec fn spec_ceil_off(v: int, m: int, off: int) -> int { if v <= off % m { off % m } else { spec_ceil(v - off % m, m) + off % m } }
pub open spec fn on_grid(x: int, m: int, off: int) -> bool { (x - off) % m == 0 }

// the same rounding written with a quotient, either way round
pub proof fn lemma_quotient(v: int, m: int) requires v >= 0, m > 0
    ensures (v / m) * m == v - v % m, m * (v / m) == v - v % m, 0 <= (v / m) * m <= v, 0 <= v / m <= v, (v / m + 1) * m == v - v % m + m, m * (v / m + 1) == v - v % m + m,
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(v, m);
    vstd::arithmetic::mul::lemma_mul_is_commutative(v / m, m);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(v, m);
    vstd::arithmetic::div_mod::lemma_div_is_ordered_by_denominator(v, 1, m);
    vstd::arithmetic::mul::lemma_mul_is_distributive_add_other_way(m, v / m, 1);
    vstd::arithmetic::mul::lemma_mul_is_commutative(v / m + 1, m);
    vstd::arithmetic::div_mod::lemma_mod_bound(v, m);
}
/*@fn juno/src/math.rs ceil_multiple
ret: r
spec:
    requires multiple > 0, spec_ceil(value as int, multiple as int) <= u64::MAX,
    ensures r == spec_ceil(value as int, multiple as int),
head:
    proof { lemma_mod_decreases(value as nat, multiple as nat); lemma_quotient(value as int, multiple as int); }
@*/
/*@fn juno/src/math.rs ceil_multiple_offset
ret: r
spec:
    requires multiple > 0, spec_ceil_off(value as int, multiple as int, offset as int) <= u64::MAX,
    ensures r == spec_ceil_off(value as int, multiple as int, offset as int),
@*/
/*@fn juno/src/math.rs floor_multiple
ret: r
spec:
    requires multiple > 0,
    ensures r == spec_floor(value as int, multiple as int),
head:
    proof { lemma_mod_decreases(value as nat, multiple as nat); lemma_quotient(value as int, multiple as int); }
@*/
/*@fn juno/src/math.rs floor_multiple_offset
ret: r
spec:
    requires multiple > 0, value >= offset,
    ensures r == spec_floor(value - offset, multiple as int) + offset,
head:
    proof { lemma_mod_decreases((value - offset) as nat, multiple as nat); }
@*/

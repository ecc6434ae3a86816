// ==== Fill totals and what a position moves, over the extended reals ====
pub open spec fn one(f: [Fill; 1]) -> Fill { f@[0] }
pub open spec fn base_in(p: Position) -> Fl { match p { Position::Long(p) => mkx(xsub(one(p.open_fills).size.x(), one(p.open_fills).fee.x())), Position::Short(p) => p.borrowed } }
pub open spec fn base_out(p: Position) -> Fl { match p { Position::Long(p) => one(p.close_fills).size, Position::Short(p) => p.borrowed } }
pub open spec fn p_cost(p: Position) -> Fl { match p { Position::Long(p) => one(p.open_fills).quote, Position::Short(p) => p.collateral } }
pub open spec fn p_gain(p: Position) -> Fl { match p {
    Position::Long(p) => mkx(xsub(one(p.close_fills).quote.x(), one(p.close_fills).fee.x())),
    Position::Short(p) => mkx(xsub(xadd(xsub(one(p.open_fills).quote.x(), one(p.open_fills).fee.x()), p.collateral.x()), one(p.close_fills).quote.x())) } }
pub open spec fn p_open_time(p: Position) -> int { match p { Position::Long(p) => p.open_time.0 as int, Position::Short(p) => p.open_time.0 as int } }
pub open spec fn p_close_time(p: Position) -> int { match p { Position::Long(p) => p.close_time.0 as int, Position::Short(p) => p.close_time.0 as int } }
pub proof fn lemma_x0(a: Fl) ensures xadd(XR::R(0real), a.x()) == a.x() {}
impl Fill {
/*@fn juno/src/lib.rs Fill::total_size
ret: r
spec:
    ensures fills@.len() == 1 ==> r == fills@[0].size,
head:
    proof { reveal_with_fuel(xsum, 2); if fills@.len() == 1 { lemma_x0(fills@[0].size); } }
closure 0:
    |$P0: Fill| -> (o: Fl) ensures o == $P0.size,
@*/
/*@fn juno/src/lib.rs Fill::total_quote
ret: r
spec:
    ensures fills@.len() == 1 ==> r == fills@[0].quote,
head:
    proof { reveal_with_fuel(xsum, 2); if fills@.len() == 1 { lemma_x0(fills@[0].quote); } }
closure 0:
    |$P0: Fill| -> (o: Fl) ensures o == $P0.quote,
@*/
/*@fn juno/src/lib.rs Fill::total_fee
ret: r
spec:
    ensures fills@.len() == 1 ==> r == fills@[0].fee,
head:
    proof { reveal_with_fuel(xsum, 2); if fills@.len() == 1 { lemma_x0(fills@[0].fee); } }
closure 0:
    |$P0: Fill| -> (o: Fl) ensures o == $P0.fee,
@*/
}
impl LongPosition {
/*@fn juno/src/trading/mod.rs LongPosition::cost
ret: r
spec:
    ensures r == p_cost(Position::Long(*self)),
@*/
/*@fn juno/src/trading/mod.rs LongPosition::base_gain
ret: r
spec:
    ensures r == base_in(Position::Long(*self)),
@*/
/*@fn juno/src/trading/mod.rs LongPosition::base_cost
ret: r
spec:
    ensures r == base_out(Position::Long(*self)),
@*/
/*@fn juno/src/trading/mod.rs LongPosition::gain
ret: r
spec:
    ensures r == p_gain(Position::Long(*self)),
@*/
}
impl ShortPosition {
/*@fn juno/src/trading/mod.rs ShortPosition::cost
ret: r
spec:
    ensures r == p_cost(Position::Short(*self)),
@*/
/*@fn juno/src/trading/mod.rs ShortPosition::base_gain
ret: r
spec:
    ensures r == base_in(Position::Short(*self)),
@*/
/*@fn juno/src/trading/mod.rs ShortPosition::base_cost
ret: r
spec:
    ensures r == base_out(Position::Short(*self)),
@*/
/*@fn juno/src/trading/mod.rs ShortPosition::gain
ret: r
spec:
    ensures r == p_gain(Position::Short(*self)),
@*/
}

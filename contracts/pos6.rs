// ==== what a closed position cost and brought ====
pub open spec fn lp_cost(p: LongPosition) -> real { one(p.open_fills).quote.v() }
pub open spec fn lp_gain(p: LongPosition) -> real { one(p.close_fills).quote.v() - one(p.close_fills).fee.v() }
pub open spec fn sp_cost(p: ShortPosition) -> real { p.collateral.v() }
pub open spec fn sp_gain(p: ShortPosition) -> real { one(p.open_fills).quote.v() - one(p.open_fills).fee.v() + p.collateral.v() - one(p.close_fills).quote.v() }
pub open spec fn p_cost(p: Position) -> real { match p { Position::Long(p) => lp_cost(p), Position::Short(p) => sp_cost(p) } }
pub open spec fn p_gain(p: Position) -> real { match p { Position::Long(p) => lp_gain(p), Position::Short(p) => sp_gain(p) } }
pub open spec fn p_profit(p: Position) -> real { p_gain(p) - p_cost(p) }
pub open spec fn p_open_time(p: Position) -> int { match p { Position::Long(p) => p.open_time.0 as int, Position::Short(p) => p.open_time.0 as int } }
pub open spec fn p_close_time(p: Position) -> int { match p { Position::Long(p) => p.close_time.0 as int, Position::Short(p) => p.close_time.0 as int } }
impl LongPosition {
/*@fn juno/src/trading/mod.rs LongPosition::cost
ret: r
spec:
    ensures r.v() == lp_cost(*self),
@*/
/*@fn juno/src/trading/mod.rs LongPosition::base_gain
ret: r
spec:
    ensures r.v() == one(self.open_fills).size.v() - one(self.open_fills).fee.v(),
@*/
/*@fn juno/src/trading/mod.rs LongPosition::base_cost
ret: r
spec:
    ensures r.v() == one(self.close_fills).size.v(),
@*/
/*@fn juno/src/trading/mod.rs LongPosition::gain
ret: r
spec:
    ensures r.v() == lp_gain(*self),
@*/
/*@fn juno/src/trading/mod.rs LongPosition::profit
ret: r
spec:
    ensures r.v() == lp_gain(*self) - lp_cost(*self),
@*/
/*@fn juno/src/trading/mod.rs LongPosition::duration
ret: r
spec:
    requires self.open_time.0 <= self.close_time.0,
    ensures r.0 == self.close_time.0 - self.open_time.0,
@*/
}
impl ShortPosition {
/*@fn juno/src/trading/mod.rs ShortPosition::cost
ret: r
spec:
    ensures r.v() == sp_cost(*self),
@*/
/*@fn juno/src/trading/mod.rs ShortPosition::base_gain
ret: r
spec:
    ensures r.v() == self.borrowed.v(),
@*/
/*@fn juno/src/trading/mod.rs ShortPosition::base_cost
ret: r
spec:
    ensures r.v() == self.borrowed.v(),
@*/
/*@fn juno/src/trading/mod.rs ShortPosition::gain
ret: r
spec:
    ensures r.v() == sp_gain(*self),
@*/
/*@fn juno/src/trading/mod.rs ShortPosition::duration
ret: r
spec:
    requires self.open_time.0 <= self.close_time.0,
    ensures r.0 == self.close_time.0 - self.open_time.0,
@*/
/*@fn juno/src/trading/mod.rs ShortPosition::profit
ret: r
spec:
    ensures r.v() == sp_gain(*self) - sp_cost(*self),
@*/
}
// what all positions together brought
pub open spec fn booked(s: Seq<Position>) -> real decreases s.len() { if s.len() == 0 { 0real } else { booked(s.drop_last()) + p_profit(s.last()) } }

// ==== Fill totals and the life of a position ====
pub open spec fn one(f: [Fill; 1]) -> Fill { f@[0] }
impl Fill {
/*@fn juno/src/lib.rs Fill::total_size
ret: r
spec:
    ensures fills@.len() == 1 ==> r.v() == fills@[0].size.v(),
head:
    proof { reveal_with_fuel(fsum, 2); }
@*/
/*@fn juno/src/lib.rs Fill::total_quote
ret: r
spec:
    ensures fills@.len() == 1 ==> r.v() == fills@[0].quote.v(),
head:
    proof { reveal_with_fuel(fsum, 2); }
@*/
/*@fn juno/src/lib.rs Fill::total_fee
ret: r
spec:
    ensures fills@.len() == 1 ==> r.v() == fills@[0].fee.v(),
head:
    proof { reveal_with_fuel(fsum, 2); }
@*/
}
impl OpenLongPosition {
/*@fn juno/src/trading/mod.rs OpenLongPosition::close
ret: r
spec:
    ensures r.open_time == self.time, r.open_fills == self.fills, r.close_time == time, r.close_fills == fills, r.close_reason == reason,
@*/
/*@fn juno/src/trading/mod.rs OpenLongPosition::base_gain
ret: r
spec:
    ensures r.v() == one(self.fills).size.v() - one(self.fills).fee.v(),
@*/
}
impl OpenShortPosition {
/*@fn juno/src/trading/mod.rs OpenShortPosition::close
ret: r
spec:
    ensures r.open_time == self.time, r.open_fills == self.fills, r.close_time == time, r.close_fills == fills, r.close_reason == reason,
        r.collateral == self.collateral, r.borrowed == self.borrowed,
@*/
}
impl TradingSummary {
/*@fn juno/src/trading/mod.rs TradingSummary::new
ret: r
spec:
    ensures r.positions@.len() == 0, r.start == start, r.end == end, r.quote == quote,
@*/
}

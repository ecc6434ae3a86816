impl OpenLongPosition {
/*@fn juno/src/trading/mod.rs OpenLongPosition::cost
ret: r
spec:
    ensures r.v() == one(self.fills).quote.v(),
@*/
}

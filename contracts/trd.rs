// ==== juno/src/trading: data ====
/*@struct juno/src/lib.rs Fill
attr:
    #[derive(Clone, Copy)]
@*/
/*@enum juno/src/trading/mod.rs CloseReason
attr:
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@*/
/*@enum juno/src/trading/mod.rs OpenPosition
@*/
/*@struct juno/src/trading/mod.rs OpenLongPosition
@*/
/*@struct juno/src/trading/mod.rs OpenShortPosition
@*/
/*@enum juno/src/trading/mod.rs Position
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/mod.rs LongPosition
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/mod.rs ShortPosition
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/trading/mod.rs TradingSummary
@*/

/*@struct juno/src/lib.rs Candle
attr:
    #[derive(Clone, Copy)]
@*/

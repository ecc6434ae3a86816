/*@struct juno/src/primitives/timestamp.rs Timestamp
attr:
    #[derive(Clone, Copy)]
@*/

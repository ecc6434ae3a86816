/*@enum juno/src/lib.rs Advice
attr:
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@*/

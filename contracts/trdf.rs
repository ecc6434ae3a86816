/*@struct juno/src/filters.rs Filters
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/lib.rs BorrowInfo
attr:
    #[derive(Clone, Copy)]
@*/
/*@struct juno/src/lib.rs Fees
attr:
    #[derive(Clone, Copy)]
@*/

impl From<u64> for Timestamp {
/*@fn juno/src/primitives/timestamp.rs Timestamp::From::from
flag: novis
@*/
}
impl FromSpecImpl<u64> for Timestamp {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(v: u64) -> Timestamp { Timestamp(v) } }

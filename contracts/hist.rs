// ---- history of one trader run, as seen by a stop loss / take profit ----
pub mod hm { use super::*;
pub enum Ev { Open(Candle), Upd(Candle) }   // clear(candle) at an opening, update(candle) at a tick
pub type Hist = Seq<Ev>;
// close of the latest candle
pub open spec fn h_close(h: Hist) -> real decreases h.len() {
    if h.len() == 0 { 0real } else { match h.last() { Ev::Upd(c) => c.close.v(), Ev::Open(_) => h_close(h.drop_last()) } } }
pub open spec fn h_opened(h: Hist) -> bool decreases h.len() {
    if h.len() == 0 { false } else { h.last() is Open || h_opened(h.drop_last()) } }
// close at the latest opening
pub open spec fn h_open(h: Hist) -> real decreases h.len() {
    if h.len() == 0 { 0real } else { match h.last() { Ev::Open(c) => c.close.v(), Ev::Upd(_) => h_open(h.drop_last()) } } }
// highest / lowest close since the latest opening
pub open spec fn h_high(h: Hist) -> real decreases h.len() {
    if h.len() == 0 { 0real } else { match h.last() { Ev::Open(c) => c.close.v(), Ev::Upd(c) => rmax(h_high(h.drop_last()), c.close.v()) } } }
pub open spec fn h_low(h: Hist) -> real decreases h.len() {
    if h.len() == 0 { 0real } else { match h.last() { Ev::Open(c) => c.close.v(), Ev::Upd(c) => rmin(h_low(h.drop_last()), c.close.v()) } } }
pub open spec fn h_upd(h: Hist, c: Candle) -> Hist { h.push(Ev::Upd(c)) }
pub open spec fn h_op(h: Hist, c: Candle) -> Hist { h.push(Ev::Open(c)) }
pub broadcast proof fn lemma_h_upd(h: Hist, c: Candle)
    ensures h_close(#[trigger] h_upd(h, c)) == c.close.v(), h_opened(h_upd(h, c)) == h_opened(h), h_open(h_upd(h, c)) == h_open(h),
        h_high(h_upd(h, c)) == rmax(h_high(h), c.close.v()), h_low(h_upd(h, c)) == rmin(h_low(h), c.close.v()),
{ assert(h_upd(h, c).drop_last() =~= h); }
pub broadcast proof fn lemma_h_op(h: Hist, c: Candle)
    ensures h_close(#[trigger] h_op(h, c)) == h_close(h), h_opened(h_op(h, c)), h_open(h_op(h, c)) == c.close.v(),
        h_high(h_op(h, c)) == c.close.v(), h_low(h_op(h, c)) == c.close.v(),
{ assert(h_op(h, c).drop_last() =~= h); }
// the h_high / h_low folds really are the extrema of the closes since the opening
pub open spec fn since_open(h: Hist, x: real) -> bool decreases h.len() {
    if h.len() == 0 { false } else { match h.last() {
        Ev::Open(c) => x == c.close.v(),
        Ev::Upd(c) => x == c.close.v() || since_open(h.drop_last(), x) } } }
pub proof fn lemma_high_is_max(h: Hist)
    requires h_opened(h)
    ensures since_open(h, h_high(h)), since_open(h, h_low(h)), forall|x: real| #[trigger] since_open(h, x) ==> h_low(h) <= x <= h_high(h)
    decreases h.len()
{
    if h.last() is Upd { lemma_high_is_max(h.drop_last()); }
    assert forall|x: real| #[trigger] since_open(h, x) implies h_low(h) <= x <= h_high(h) by {
        if h.last() is Upd { if since_open(h.drop_last(), x) {} else { } }
    }
}
}
pub use hm::*;

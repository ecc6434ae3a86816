// ---- construct: every variant becomes its own implementation (Box<dyn MA> replaced by an enum of the implementations) ----
pub mod madm { use super::*;
broadcast use fl_axioms;
/*@enum juno/src/indicators/mod.rs MAParams
attr:
    #[derive(Clone, Copy)]
@*/
pub enum DynMa { Alma(Alma), Dema(Dema), Ema(Ema), Ema2(Ema2), Kama(Kama), Sma(Sma), Smma(Smma) }
pub trait ImpMa: Sized { spec fn as_dyn(self) -> DynMa; fn boxed(self) -> (r: DynMa) ensures r == self.as_dyn(); }
impl ImpMa for Alma { open spec fn as_dyn(self) -> DynMa { DynMa::Alma(self) } fn boxed(self) -> (r: DynMa) { DynMa::Alma(self) } }
impl ImpMa for Dema { open spec fn as_dyn(self) -> DynMa { DynMa::Dema(self) } fn boxed(self) -> (r: DynMa) { DynMa::Dema(self) } }
impl ImpMa for Ema { open spec fn as_dyn(self) -> DynMa { DynMa::Ema(self) } fn boxed(self) -> (r: DynMa) { DynMa::Ema(self) } }
impl ImpMa for Ema2 { open spec fn as_dyn(self) -> DynMa { DynMa::Ema2(self) } fn boxed(self) -> (r: DynMa) { DynMa::Ema2(self) } }
impl ImpMa for Kama { open spec fn as_dyn(self) -> DynMa { DynMa::Kama(self) } fn boxed(self) -> (r: DynMa) { DynMa::Kama(self) } }
impl ImpMa for Sma { open spec fn as_dyn(self) -> DynMa { DynMa::Sma(self) } fn boxed(self) -> (r: DynMa) { DynMa::Sma(self) } }
impl ImpMa for Smma { open spec fn as_dyn(self) -> DynMa { DynMa::Smma(self) } fn boxed(self) -> (r: DynMa) { DynMa::Smma(self) } }
pub fn dyn_box<T: ImpMa>(t: T) -> (r: DynMa) ensures r == t.as_dyn() { t.boxed() }
// the definition a configured average must follow, and when it is mature
pub open spec fn ma_def(p: MAParams, h: FS) -> real { match p {
    MAParams::Alma(p) => weighted(tail_n(h, p.period as int), p.w()),
    MAParams::Dema(p) => dema_of(h, p.period as int),
    MAParams::Ema(p) => ema_of(h, p.a()),
    MAParams::Ema2(p) => ema2_of(h, p.period as int),
    MAParams::Kama(p) => kama_of(h, p.period as int),
    MAParams::Sma(p) => sma_of(h, p.period as int),
    MAParams::Smma(p) => smma_of(h, p.period as int),
} }
pub open spec fn ma_mat(p: MAParams) -> int { match p {
    MAParams::Alma(p) => p.period as int,
    MAParams::Dema(p) => 2 * p.period - 1,
    MAParams::Ema(p) => p.period as int,
    MAParams::Ema2(p) => p.period as int,
    MAParams::Kama(p) => p.period + 1,
    MAParams::Sma(p) => p.period as int,
    MAParams::Smma(p) => p.period + 1,
} }
impl MAParams {
    pub open spec fn n(self) -> int { match self {
        MAParams::Alma(p) => p.period as int,
        MAParams::Dema(p) => p.period as int,
        MAParams::Ema(p) => p.period as int,
        MAParams::Ema2(p) => p.period as int,
        MAParams::Kama(p) => p.period as int,
        MAParams::Sma(p) => p.period as int,
        MAParams::Smma(p) => p.period as int,
    } }
    pub open spec fn ok(self) -> bool { match self {
        MAParams::Alma(p) => p.ok(),
        MAParams::Dema(p) => p.period > 0 && 2 * p.period < u32::MAX,
        MAParams::Ema(p) => p.ok(),
        MAParams::Ema2(p) => p.period > 0 && p.period + 1 < u32::MAX,
        MAParams::Kama(p) => p.period > 0 && p.period + 1 < u32::MAX,
        MAParams::Sma(p) => p.period > 0 && p.period + 1 < u32::MAX,
        MAParams::Smma(p) => p.period > 0 && p.period + 1 < u32::MAX,
    } }
/*@fn juno/src/indicators/mod.rs MAParams::construct
ret: r
subst: Box::new => dyn_box
spec:
    requires self.ok(),
    ensures r.of(*self), r.inv(Seq::empty()),
@*/
/*@fn juno/src/indicators/mod.rs MAParams::period
ret: r
spec:
    ensures r == self.n(),
@*/
}
// dynamic dispatch: each implementation has met the contract of the trait
impl DynMa {
    pub open spec fn of(self, p: MAParams) -> bool { self.wf() && p.ok() && match (self, p) {
        (DynMa::Alma(x), MAParams::Alma(p)) => x.n() == p.period && x.weights@ == p.w(),
        (DynMa::Dema(x), MAParams::Dema(p)) => x.n() == p.period,
        (DynMa::Ema(x), MAParams::Ema(p)) => x.is(p),
        (DynMa::Ema2(x), MAParams::Ema2(p)) => x.n() == p.period,
        (DynMa::Kama(x), MAParams::Kama(p)) => x.n() == p.period,
        (DynMa::Sma(x), MAParams::Sma(p)) => x.n() == p.period,
        (DynMa::Smma(x), MAParams::Smma(p)) => x.n() == p.period,
        _ => false } }
    pub open spec fn wf(self) -> bool { match self {
        DynMa::Alma(x) => x.wf(),
        DynMa::Dema(x) => x.wf(),
        DynMa::Ema(x) => x.wf(),
        DynMa::Ema2(x) => x.wf(),
        DynMa::Kama(x) => x.wf(),
        DynMa::Sma(x) => x.wf(),
        DynMa::Smma(x) => x.wf(),
    } }
    pub open spec fn inv(self, h: FS) -> bool { match self {
        DynMa::Alma(x) => x.inv(h),
        DynMa::Dema(x) => x.inv(h),
        DynMa::Ema(x) => x.inv(h),
        DynMa::Ema2(x) => x.inv(h),
        DynMa::Kama(x) => x.inv(h),
        DynMa::Sma(x) => x.inv(h),
        DynMa::Smma(x) => x.inv(h),
    } }
    pub fn maturity(&self) -> (r: u32)
        requires self.wf() ensures forall|p: MAParams| #[trigger] self.of(p) ==> r == ma_mat(p)
    { match self {
        DynMa::Alma(x) => x.maturity(),
        DynMa::Dema(x) => x.maturity(),
        DynMa::Ema(x) => x.maturity(),
        DynMa::Ema2(x) => x.maturity(),
        DynMa::Kama(x) => x.maturity(),
        DynMa::Sma(x) => x.maturity(),
        DynMa::Smma(x) => x.maturity(),
    } }
    pub fn mature(&self) -> (r: bool)
        requires self.wf() ensures forall|p: MAParams, h: FS| #[trigger] self.of(p) && #[trigger] self.inv(h) ==> r == (h.len() >= ma_mat(p))
    { match self {
        DynMa::Alma(x) => x.mature(),
        DynMa::Dema(x) => x.mature(),
        DynMa::Ema(x) => x.mature(),
        DynMa::Ema2(x) => x.mature(),
        DynMa::Kama(x) => x.mature(),
        DynMa::Sma(x) => x.mature(),
        DynMa::Smma(x) => x.mature(),
    } }
    pub fn update(&mut self, price: Fl)
        requires old(self).wf(), exists|h: FS| old(self).inv(h), ensures final(self).wf(), forall|p: MAParams| #[trigger] old(self).of(p) ==> final(self).of(p),
            forall|h: FS| #[trigger] old(self).inv(h) ==> final(self).inv(p_upd(h, price))
    { match self {
        DynMa::Alma(x) => x.update(price),
        DynMa::Dema(x) => x.update(price),
        DynMa::Ema(x) => x.update(price),
        DynMa::Ema2(x) => x.update(price),
        DynMa::Kama(x) => x.update(price),
        DynMa::Sma(x) => x.update(price),
        DynMa::Smma(x) => x.update(price),
    } }
    pub fn value(&self) -> (r: Fl)
        requires self.wf() ensures forall|p: MAParams, h: FS| #[trigger] self.of(p) && #[trigger] self.inv(h) && h.len() >= ma_mat(p) ==> r.v() == ma_def(p, h)
    { match self {
        DynMa::Alma(x) => x.value(),
        DynMa::Dema(x) => x.value(),
        DynMa::Ema(x) => x.value(),
        DynMa::Ema2(x) => x.value(),
        DynMa::Kama(x) => x.value(),
        DynMa::Sma(x) => x.value(),
        DynMa::Smma(x) => x.value(),
    } }
}
// ---- averages named by the Adler-32 checksum of their lowercase name ----
pub open spec fn adler_b(s: Seq<int>, a: int) -> int decreases s.len() { if s.len() == 0 { 0 } else { let a1 = (a + s[0]) % 65521; a1 + adler_b(s.subrange(1, s.len() as int), a1) } }
pub open spec fn adler_a(s: Seq<int>, a: int) -> int decreases s.len() { if s.len() == 0 { a } else { adler_a(s.subrange(1, s.len() as int), (a + s[0]) % 65521) } }
pub open spec fn adler(s: Seq<int>) -> int { (adler_b(s, 1) % 65521) * 65536 + adler_a(s, 1) }
pub mod adler32 {
/*@const juno/src/indicators/mod.rs adler32::ALMA
@*/
/*@const juno/src/indicators/mod.rs adler32::DEMA
@*/
/*@const juno/src/indicators/mod.rs adler32::EMA
@*/
/*@const juno/src/indicators/mod.rs adler32::EMA2
@*/
/*@const juno/src/indicators/mod.rs adler32::KAMA
@*/
/*@const juno/src/indicators/mod.rs adler32::SMA
@*/
/*@const juno/src/indicators/mod.rs adler32::SMMA
@*/
}
pub open spec fn named(code: u32, period: u32) -> Option<MAParams> {
    if code == adler(seq![97int, 108int, 109int, 97int]) { Some(MAParams::Alma(AlmaParams { period, offset: mk(0.85real), sigma: None })) } else
    if code == adler(seq![100int, 101int, 109int, 97int]) { Some(MAParams::Dema(DemaParams { period })) } else
    if code == adler(seq![101int, 109int, 97int]) { Some(MAParams::Ema(EmaParams { period, smoothing: None })) } else
    if code == adler(seq![101int, 109int, 97int, 50int]) { Some(MAParams::Ema2(Ema2Params { period })) } else
    if code == adler(seq![107int, 97int, 109int, 97int]) { Some(MAParams::Kama(KamaParams { period })) } else
    if code == adler(seq![115int, 109int, 97int]) { Some(MAParams::Sma(SmaParams { period })) } else
    if code == adler(seq![115int, 109int, 109int, 97int]) { Some(MAParams::Smma(SmmaParams { period })) } else
    { None } }
/*@fn juno/src/indicators/mod.rs ma_from_adler32
ret: r
subst: Box::new => dyn_box
spec:
    requires named(code, period) is Some, (named(code, period)->0).ok(),
    ensures r.of(named(code, period)->0), r.inv(Seq::empty()),
head:
    proof {
        assert(adler32::ALMA == adler(seq![97int, 108int, 109int, 97int])) by (compute);
        assert(adler32::DEMA == adler(seq![100int, 101int, 109int, 97int])) by (compute);
        assert(adler32::EMA == adler(seq![101int, 109int, 97int])) by (compute);
        assert(adler32::EMA2 == adler(seq![101int, 109int, 97int, 50int])) by (compute);
        assert(adler32::KAMA == adler(seq![107int, 97int, 109int, 97int])) by (compute);
        assert(adler32::SMA == adler(seq![115int, 109int, 97int])) by (compute);
        assert(adler32::SMMA == adler(seq![115int, 109int, 109int, 97int])) by (compute);
    }
@*/
}
pub use madm::*;

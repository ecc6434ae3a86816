impl PartialEq<u64> for Interval {
/*@fn juno/src/primitives/interval.rs Interval::PartialEq::eq
flag: novis
@*/
}
impl PartialEqSpecImpl<u64> for Interval {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &u64) -> bool { self.0 == *o } }
// shim: std::borrow::Cow, Option::unwrap_or_default
pub enum Cow<'a> { Borrowed(&'a Candle), Owned(Candle) }
impl<'a> Cow<'a> { pub open spec fn val(self) -> Candle { match self { Cow::Borrowed(c) => *c, Cow::Owned(c) => c } } }
// `a += &b` on candles: the real operator body under its own contract
impl Candle {
/*@fn juno/src/lib.rs Candle::AddAssign::add_assign
spec:
    ensures *final(self) == agg(*old(self), *other),
@*/
}
#[verifier::external_body]
pub fn iv_or_default(o: Option<Interval>) -> (r: Interval) ensures r == (match o { Some(x) => x, None => Interval(0) }) { unimplemented!() }

// ---- intended meaning: candle streams, their buckets, the aggregate of a bucket ----
pub mod bm { use super::*;
broadcast use fl_axioms;
pub type CS = Seq<Candle>;
pub open spec fn agg(a: Candle, b: Candle) -> Candle {
    Candle { time: a.time, open: a.open, high: mk(rmax(a.high.v(), b.high.v())), low: mk(rmin(a.low.v(), b.low.v())), close: b.close, volume: mk(a.volume.v() + b.volume.v()) } }
pub struct Cfg { pub iv: Interval, pub bv: Interval }
pub open spec fn bstart(c: Candle, k: Cfg) -> int { floor_of(c.time.0 as int, k.bv) }
// c is the last candle its bucket can have
pub open spec fn closing(c: Candle, k: Cfg) -> bool { floor_of(c.time.0 + k.iv.0, k.bv) == c.time.0 + k.iv.0 }
pub open spec fn cand_ok(c: Candle, k: Cfg) -> bool {
    &&& c.time.0 + k.iv.0 <= u64::MAX && floor_dom(c.time.0 as int, k.bv) && floor_dom(c.time.0 + k.iv.0, k.bv)
    &&& is_floor(bstart(c, k), c.time.0 as int, k.bv) && 0 <= bstart(c, k)
    &&& is_floor(floor_of(c.time.0 + k.iv.0, k.bv), c.time.0 + k.iv.0, k.bv) }
// input: at least one interval apart
pub open spec fn stream(h: CS, k: Cfg) -> bool {
    &&& k.iv.0 > 0 && k.iv.0 < k.bv.0
    &&& forall|i: int| 0 <= i < h.len() ==> cand_ok(#[trigger] h[i], k)
    &&& forall|i: int, j: int| 0 <= i < j < h.len() ==> #[trigger] h[i].time.0 + k.iv.0 <= #[trigger] h[j].time.0 }
// number of trailing candles in the bucket of the last one
pub open spec fn glen(h: CS, k: Cfg) -> int decreases h.len() {
    if h.len() == 0 { 0 } else if h.len() > 1 && bstart(h[h.len() - 2], k) == bstart(h.last(), k) { glen(h.drop_last(), k) + 1 } else { 1 } }
pub open spec fn group(h: CS, k: Cfg) -> CS { h.subrange(h.len() - glen(h, k), h.len() as int) }
pub open spec fn highest(g: CS) -> real decreases g.len() { if g.len() <= 1 { g[0].high.v() } else { rmax(highest(g.drop_last()), g.last().high.v()) } }
pub open spec fn lowest(g: CS) -> real decreases g.len() { if g.len() <= 1 { g[0].low.v() } else { rmin(lowest(g.drop_last()), g.last().low.v()) } }
pub open spec fn total(g: CS) -> real decreases g.len() { if g.len() <= 1 { g[0].volume.v() } else { total(g.drop_last()) + g.last().volume.v() } }
// the one candle a bucket of candles becomes
pub open spec fn bucket(g: CS, k: Cfg) -> Candle {
    Candle { time: Timestamp(bstart(g[0], k) as u64), open: g[0].open, high: mk(highest(g)), low: mk(lowest(g)), close: g.last().close, volume: mk(total(g)) } }
// what is still waiting after h
pub open spec fn pending(h: CS, k: Cfg) -> Option<Candle> { if h.len() == 0 || closing(h.last(), k) { None } else { Some(bucket(group(h, k), k)) } }
// what has to come out when c arrives after h
pub open spec fn late(h: CS, c: Candle, k: Cfg) -> bool { h.len() > 0 && !closing(h.last(), k) && bstart(c, k) != bstart(h.last(), k) }
pub open spec fn emitted(h: CS, c: Candle, k: Cfg) -> Option<Candle> {
    if late(h, c, k) { Some(bucket(group(h, k), k)) } else if closing(c, k) { Some(bucket(group(b_upd(h, c), k), k)) } else { None } }
pub open spec fn b_upd(h: CS, c: Candle) -> CS { h.push(c) }
pub open spec fn extends(h: CS, c: Candle, k: Cfg) -> bool { stream(b_upd(h, c), k) && !(late(h, c, k) && closing(c, k)) }
pub proof fn lemma_glen(h: CS, k: Cfg) ensures 0 <= glen(h, k) <= h.len(), h.len() > 0 ==> glen(h, k) >= 1 decreases h.len()
{ if h.len() > 0 { lemma_glen(h.drop_last(), k); } }
pub proof fn lemma_prefix(h: CS, c: Candle, k: Cfg) requires stream(b_upd(h, c), k) ensures stream(h, k)
{ let g = b_upd(h, c);
  assert forall|i: int| 0 <= i < h.len() implies cand_ok(#[trigger] h[i], k) by { assert(h[i] == g[i]); }
  assert forall|i: int, j: int| 0 <= i < j < h.len() implies #[trigger] h[i].time.0 + k.iv.0 <= #[trigger] h[j].time.0 by { assert(h[i] == g[i]); assert(h[j] == g[j]); } }
pub proof fn lemma_order(h: CS, i: int, j: int, k: Cfg)
    requires stream(h, k), 0 <= i <= j < h.len()
    ensures bstart(h[i], k) <= bstart(h[j], k), i < j && closing(h[i], k) ==> bstart(h[i], k) < bstart(h[j], k),
{
    assert(cand_ok(h[i], k)); assert(cand_ok(h[j], k));
    if i < j {
        let (a, b) = (h[i], h[j]);
        assert(a.time.0 + k.iv.0 <= b.time.0);
        assert(boundary(bstart(a, k), k.bv));
        if closing(a, k) { assert(boundary(a.time.0 + k.iv.0, k.bv)); assert(a.time.0 + k.iv.0 <= bstart(b, k)); }
    }
}
// the group is exactly the candles of the last bucket: none missing, none foreign
pub proof fn lemma_group_exact(h: CS, k: Cfg)
    requires stream(h, k), h.len() > 0
    ensures forall|i: int| 0 <= i < h.len() ==> (bstart(#[trigger] h[i], k) == bstart(h.last(), k) <==> i >= h.len() - glen(h, k)),
    decreases h.len()
{
    lemma_glen(h, k);
    if h.len() > 1 {
        let g = h.drop_last();
        assert(b_upd(g, h.last()) =~= h);
        lemma_prefix(g, h.last(), k);
        lemma_group_exact(g, k);
        lemma_glen(g, k);
        assert forall|i: int| 0 <= i < h.len() implies (bstart(#[trigger] h[i], k) == bstart(h.last(), k) <==> i >= h.len() - glen(h, k)) by {
            if i < g.len() {
                assert(h[i] == g[i]);
                lemma_order(h, i, h.len() - 2, k); lemma_order(h, h.len() - 2, h.len() - 1, k);
            }
        }
    }
}
pub proof fn lemma_bucket_extrema(g: CS)
    requires g.len() > 0
    ensures forall|i: int| 0 <= i < g.len() ==> lowest(g) <= (#[trigger] g[i]).low.v() && g[i].high.v() <= highest(g),
        exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).high.v() == highest(g), exists|i: int| 0 <= i < g.len() && (#[trigger] g[i]).low.v() == lowest(g),
    decreases g.len()
{
    if g.len() > 1 {
        let p = g.drop_last();
        lemma_bucket_extrema(p);
        assert forall|i: int| 0 <= i < g.len() implies lowest(g) <= (#[trigger] g[i]).low.v() && g[i].high.v() <= highest(g) by { if i < p.len() { assert(p[i] == g[i]); } }
        let a = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).high.v() == highest(p);
        let b = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).low.v() == lowest(p);
        assert(g[a] == p[a] && g[b] == p[b]);
        assert(g[g.len() - 1] == g.last());
    } else { assert(g[0].high.v() == highest(g)); assert(g[0].low.v() == lowest(g)); }
}
// one step, in the terms the code works in
pub open spec fn step(h: CS, c: Candle, k: Cfg) -> bool {
    let g = b_upd(h, c);
    &&& g.len() > 0 && g.last() == c
    &&& (h.len() > 0 && !closing(h.last(), k) ==> bucket(group(h, k), k).time.0 == bstart(h.last(), k) && bstart(c, k) >= bstart(h.last(), k))
    &&& (h.len() > 0 && !closing(h.last(), k) && bstart(c, k) == bstart(h.last(), k) ==> bucket(group(g, k), k) == agg(bucket(group(h, k), k), c))
    &&& (h.len() == 0 || closing(h.last(), k) || bstart(c, k) != bstart(h.last(), k) ==> bucket(group(g, k), k) == (Candle { time: Timestamp(bstart(c, k) as u64), ..c }))
}
// the group before and after one more candle
pub proof fn lemma_group_push(h: CS, c: Candle, k: Cfg)
    ensures h.len() > 0 && bstart(c, k) == bstart(h.last(), k) ==> group(b_upd(h, c), k) == group(h, k).push(c) && group(h, k).len() > 0,
        h.len() == 0 || bstart(c, k) != bstart(h.last(), k) ==> group(b_upd(h, c), k) == seq![c],
{
    hide(floor_of);
    let g = b_upd(h, c);
    assert(g.drop_last() =~= h);
    lemma_glen(h, k);
    if h.len() > 0 && bstart(c, k) == bstart(h.last(), k) {
        assert(g[g.len() - 2] == h.last());
        assert(glen(g, k) == glen(h, k) + 1);
        assert(group(g, k) =~= group(h, k).push(c));
    } else {
        if h.len() > 0 { assert(g[g.len() - 2] == h.last()); }
        assert(glen(g, k) == 1);
        assert(group(g, k) =~= seq![c]);
    }
}
pub proof fn lemma_bucket_push(g: CS, c: Candle, k: Cfg)
    requires g.len() > 0
    ensures bucket(g.push(c), k) == agg(bucket(g, k), c)
{ hide(floor_of); assert(g.push(c).drop_last() =~= g); assert(g.push(c)[0] == g[0]); }
pub proof fn lemma_bucket_one(c: Candle, k: Cfg)
    ensures bucket(seq![c], k) == (Candle { time: Timestamp(bstart(c, k) as u64), ..c })
{ hide(floor_of); assert(seq![c][0] == c); assert(seq![c].last() == c); }
pub proof fn lemma_step(h: CS, c: Candle, k: Cfg)
    requires extends(h, c, k)
    ensures step(h, c, k)
{
    hide(floor_of); hide(floor_dom); hide(is_floor); hide(bucket); hide(group);
    let g = b_upd(h, c);
    lemma_prefix(h, c, k);
    lemma_group_push(h, c, k);
    lemma_bucket_one(c, k);
    if h.len() > 0 {
        assert(g[h.len() - 1] == h.last());
        assert(g[h.len() as int] == c);
        lemma_order(g, h.len() - 1, h.len() as int, k);
        lemma_pending_time(h, k);
        if bstart(c, k) == bstart(h.last(), k) { lemma_bucket_push(group(h, k), c, k); }
    }
}
pub proof fn lemma_pending_time(h: CS, k: Cfg)
    requires stream(h, k), h.len() > 0
    ensures bucket(group(h, k), k).time.0 == bstart(h.last(), k)
{
    hide(floor_of); hide(floor_dom); hide(is_floor);
    lemma_glen(h, k);
    lemma_group_exact(h, k);
    let x = h[h.len() - glen(h, k)];
    assert(bstart(x, k) == bstart(h.last(), k));
    assert(group(h, k)[0] == x);
    assert(cand_ok(x, k));
    lemma_floor_u64(x, k);
}
pub proof fn lemma_floor_u64(x: Candle, k: Cfg) requires cand_ok(x, k) ensures 0 <= bstart(x, k) <= u64::MAX { }
}
pub use bm::*;
/*@struct juno/src/utils/buffered_candle.rs BufferedCandle
@*/
impl BufferedCandle {
    pub open spec fn cfg(&self) -> Cfg { Cfg { iv: self.interval, bv: self.buffer_interval } }
    pub open spec fn inv(&self, h: CS) -> bool { self.enabled ==> self.buffer_candle == pending(h, self.cfg()) }
/*@fn juno/src/utils/buffered_candle.rs BufferedCandle::new
ret: r
subst: buffer_interval.unwrap_or_default() => iv_or_default(buffer_interval)
spec:
    requires interval.0 > 0, buffer_interval is Some ==> interval.0 <= (buffer_interval->0).0,
    ensures r.inv(Seq::empty()), r.cfg().iv == interval, r.enabled == (buffer_interval is Some && (buffer_interval->0).0 != interval.0),
        r.enabled ==> r.cfg().bv == buffer_interval->0,
@*/
/*@fn juno/src/utils/buffered_candle.rs BufferedCandle::buffer
ret: r
flag: addassign:Candle
spec:
    requires old(self).enabled ==> exists|h: CS| #[trigger] old(self).inv(h) && extends(h, *candle, old(self).cfg()),
    ensures final(self).cfg() == old(self).cfg(), final(self).enabled == old(self).enabled,
        !old(self).enabled ==> r is Some && (r->0).val() == *candle,
        old(self).enabled ==> forall|h: CS| #[trigger] old(self).inv(h) && extends(h, *candle, old(self).cfg()) ==> {
            &&& final(self).inv(b_upd(h, *candle))
            &&& (match emitted(h, *candle, old(self).cfg()) { None => r is None, Some(x) => r is Some && (r->0).val() == x }) },
head:
    let ghost k = self.cfg();
    proof {
        assert forall|h: CS| #[trigger] self.inv(h) && extends(h, *candle, k) implies step(h, *candle, k) by { lemma_step(h, *candle, k); }
        assert forall|h: CS| #[trigger] self.inv(h) && extends(h, *candle, k) implies cand_ok(*candle, k) by { assert(b_upd(h, *candle)[h.len() as int] == *candle); }
    }
@*/
}

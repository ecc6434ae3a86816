// ---- advice histories ----
pub mod ahm { use super::*;
pub type AH = Seq<Advice>;
// the change filter: the last real advice, and how many updates ago it first came
pub open spec fn prevailing(h: AH) -> Advice decreases h.len() {
    if h.len() == 0 { Advice::None } else if h.last() is None { prevailing(h.drop_last()) } else { h.last() } }
pub open spec fn changed_out(h: AH, v: Advice) -> Advice { if v is None || v == prevailing(h) { Advice::None } else { v } }
pub open spec fn age(h: AH) -> int decreases h.len() {
    if h.len() == 0 { 0 } else if changed_out(h.drop_last(), h.last()) is None { age(h.drop_last()) + 1 } else { 1 } }
// number of equal advices at the end of h
pub open spec fn streak(h: AH) -> int decreases h.len() {
    if h.len() == 0 { 0 } else if h.len() > 1 && h[h.len() - 2] == h.last() { streak(h.drop_last()) + 1 } else { 1 } }
pub open spec fn ran(h: AH, level: int) -> bool { streak(h) > level }
// the last advice a persistence filter of this level passed
pub open spec fn last_passed(h: AH, level: int) -> Advice decreases h.len() {
    if h.len() == 0 { Advice::None } else if ran(h, level) { h.last() } else { last_passed(h.drop_last(), level) } }
pub open spec fn a_upd(h: AH, v: Advice) -> AH { h.push(v) }
pub open spec fn all_same(h: AH) -> bool { forall|i: int| 0 <= i < h.len() ==> #[trigger] h[i] == h[0] }
pub broadcast proof fn lemma_upd(h: AH, v: Advice)
    ensures prevailing(#[trigger] a_upd(h, v)) == (if v is None { prevailing(h) } else { v }),
        age(a_upd(h, v)) == (if changed_out(h, v) is None { age(h) + 1 } else { 1 }),
        a_upd(h, v).len() == h.len() + 1, a_upd(h, v).last() == v,
        streak(a_upd(h, v)) == (if h.len() > 0 && h.last() == v { streak(h) + 1 } else { 1 }),
        forall|l: int| #[trigger] last_passed(a_upd(h, v), l) == (if ran(a_upd(h, v), l) { v } else { last_passed(h, l) }),
{ assert(a_upd(h, v).drop_last() =~= h); }
pub broadcast proof fn lemma_streak(h: AH) ensures #[trigger] streak(h) >= 0, streak(h) <= h.len(), h.len() > 0 ==> streak(h) >= 1 decreases h.len()
{ if h.len() > 0 { lemma_streak(h.drop_last()); } }
// the folds say what the property says
// (1) the change filter's prevailing advice is the last one it passed, and its age the number of updates since (and including) that one
pub open spec fn passed_at(h: AH, i: int) -> bool { !(changed_out(h.take(i), h[i]) is None) }
pub proof fn lemma_prevailing_is_last_passed(h: AH)
    ensures forall|i: int| 0 <= i < h.len() && #[trigger] passed_at(h, i) ==> age(h) <= h.len() - i,
        !(prevailing(h) is None) ==> 1 <= age(h) <= h.len() && passed_at(h, h.len() - age(h)) && h[h.len() - age(h)] == prevailing(h),
        prevailing(h) is None ==> age(h) == h.len() && forall|i: int| 0 <= i < h.len() ==> h[i] is None,
    decreases h.len()
{
    if h.len() > 0 {
        let g = h.drop_last();
        lemma_prevailing_is_last_passed(g);
        assert(h.take(g.len() as int) =~= g);
        assert(g.push(h.last()) =~= h);
        lemma_upd(g, h.last());
        assert forall|i: int| 0 <= i < h.len() && #[trigger] passed_at(h, i) implies age(h) <= h.len() - i by {
            assert(h.take(i) =~= g.take(i));
            if i < g.len() { assert(passed_at(g, i)); }
        }
        if !(prevailing(h) is None) {
            let k = h.len() - age(h);
            if changed_out(g, h.last()) is None { assert(h.take(k) =~= g.take(k)); assert(passed_at(g, k)); }
        }
    }
}
// (2) streak(h) > level: the last level + 1 advices are equal
pub proof fn lemma_streak_meaning(h: AH, l: int)
    requires 0 <= l
    ensures streak(h) > l <==> h.len() > l && forall|i: int| h.len() - 1 - l <= i < h.len() ==> #[trigger] h[i] == h.last()
    decreases h.len()
{
    lemma_streak(h);
    if h.len() > 1 {
        let g = h.drop_last();
        if l > 0 {
            lemma_streak_meaning(g, l - 1);
            if streak(h) > l { assert forall|i: int| h.len() - 1 - l <= i < h.len() implies #[trigger] h[i] == h.last() by { if i < g.len() { assert(g[i] == h[i]); } } }
            if h.len() > l && forall|i: int| h.len() - 1 - l <= i < h.len() ==> #[trigger] h[i] == h.last() {
                assert(h[h.len() - 2] == h.last());
                assert forall|i: int| g.len() - 1 - (l - 1) <= i < g.len() implies #[trigger] g[i] == g.last() by { assert(g[i] == h[i]); assert(h[i] == h.last()); }
            }
        }
    }
}
}
pub use ahm::*;
//@broadcast lemma_upd, lemma_streak

/*@fn juno/src/utils/mod.rs combine
ret: r
spec:
    ensures r == (if advice1 is None || advice2 is None { Advice::None } else if advice1 == advice2 { advice1 } else { Advice::Liquidate }),
@*/
/*@struct juno/src/utils/changed.rs Changed
@*/
impl Changed {
    pub open spec fn inv(&self, h: AH) -> bool { self.enabled ==> self.previous == prevailing(h) && self.age == age(h) }
/*@fn juno/src/utils/changed.rs Changed::new
ret: r
spec:
    ensures r.enabled == enabled, r.inv(Seq::empty()),
@*/
/*@fn juno/src/utils/changed.rs Changed::prevailing_advice
ret: r
spec:
    ensures forall|h: AH| #[trigger] self.inv(h) && self.enabled ==> r == prevailing(h),
@*/
/*@fn juno/src/utils/changed.rs Changed::prevailing_advice_age
ret: r
spec:
    ensures forall|h: AH| #[trigger] self.inv(h) && self.enabled ==> r == age(h),
@*/
/*@fn juno/src/utils/changed.rs Changed::maturity
ret: r
spec:
    ensures r == 1,
@*/
/*@fn juno/src/utils/changed.rs Changed::update
ret: r
spec:
    requires old(self).age < u32::MAX,
    ensures final(self).enabled == old(self).enabled,
        forall|h: AH| #[trigger] old(self).inv(h) ==> final(self).inv(a_upd(h, value)) && r == (if old(self).enabled { changed_out(h, value) } else { value }),
@*/
}
/*@enum juno/src/utils/mid_trend.rs MidTrendPolicy
attr:
    #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@*/
/*@struct juno/src/utils/mid_trend.rs MidTrend
@*/
impl MidTrend {
    pub open spec fn inv(&self, h: AH) -> bool { self.policy is Ignore ==> {
        &&& self.previous == (if h.len() == 0 { None } else { Some(h[0]) })
        &&& self.enabled == all_same(h) } }
/*@fn juno/src/utils/mid_trend.rs MidTrend::new
ret: r
spec:
    ensures r.policy == policy, r.inv(Seq::empty()),
@*/
/*@fn juno/src/utils/mid_trend.rs MidTrend::maturity
ret: r
spec:
    ensures r == (if self.policy is Current { 1int } else { 2 }),
@*/
/*@fn juno/src/utils/mid_trend.rs MidTrend::update
ret: r
spec:
    ensures final(self).policy == old(self).policy,
        forall|h: AH| #[trigger] old(self).inv(h) ==> final(self).inv(a_upd(h, value))
            && r == (if old(self).policy is Ignore && all_same(a_upd(h, value)) { Advice::None } else { value }),
head:
    proof { assert forall|h: AH| #[trigger] self.inv(h) implies mt_step(h, value) by { lemma_mt(h, value); } }
@*/
}
pub open spec fn mt_step(h: AH, v: Advice) -> bool {
    all_same(a_upd(h, v)) == (h.len() == 0 || all_same(h) && h[0] == v) && a_upd(h, v)[0] == (if h.len() == 0 { v } else { h[0] }) }
pub proof fn lemma_mt(h: AH, v: Advice) ensures mt_step(h, v)
{
    let g = a_upd(h, v);
    if h.len() > 0 {
        if all_same(g) { assert(g[h.len() as int] == g[0]); assert forall|i: int| 0 <= i < h.len() implies #[trigger] h[i] == h[0] by { assert(g[i] == h[i]); assert(g[0] == h[0]); } }
        if all_same(h) && h[0] == v { assert forall|i: int| 0 <= i < g.len() implies #[trigger] g[i] == g[0] by { if i < h.len() { assert(h[i] == h[0]); } } }
    }
}
/*@struct juno/src/utils/persistence.rs Persistence
@*/
impl Persistence {
    pub open spec fn wf(&self) -> bool { self.age <= self.level }
    pub open spec fn cfg(&self) -> (u32, bool) { (self.level, self.return_previous) }
    pub open spec fn inv(&self, h: AH) -> bool { self.level > 0 ==> {
        &&& self.age as int == (if streak(h) < self.level { streak(h) } else { self.level as int })
        &&& (h.len() > 0 ==> self.potential == h.last())
        &&& (h.len() == 0 ==> self.potential is None)
        &&& self.previous == last_passed(h, self.level as int) } }
/*@fn juno/src/utils/persistence.rs Persistence::new
ret: r
spec:
    ensures r.cfg() == (level, return_previous), r.wf(), r.inv(Seq::empty()),
@*/
/*@fn juno/src/utils/persistence.rs Persistence::maturity
ret: r
spec:
    requires self.level < u32::MAX,
    ensures r == self.level + 1,
@*/
/*@fn juno/src/utils/persistence.rs Persistence::update
ret: r
spec:
    requires old(self).wf(), old(self).level < u32::MAX,
    ensures final(self).cfg() == old(self).cfg(), final(self).wf(),
        forall|h: AH| #[trigger] old(self).inv(h) ==> final(self).inv(a_upd(h, value))
            && r == (if ran(a_upd(h, value), old(self).level as int) { value }
                else if old(self).return_previous { last_passed(h, old(self).level as int) } else { Advice::None }),
@*/
}

//@include hdr.rs
verus! {
//@include rt.rs
//@include imath.rs
//@include prim.rs
//@include text.rs
//@subst_type String => Txt
//@subst_type Vec<FormatItem<'_>> => Form
//@subst_type fmt::Formatter<'_> => Formatter
//@subst_type fmt::Result => Result<(), FmtError>
//@subst_type HashMap<&'static str, u64> => UnitMap
//@subst_expr String::new => Txt::new
//@subst_expr INTERVAL_FACTOR_MAP => INTERVAL_FACTOR_MAP_X()
//@subst_expr Self::Err {} => ParseError
//@method find => find_x
//@method split_at => split_at_x
//@method len => len_x
//@method parse => parse_x
//@method to_string => to_string_x
broadcast use text;
// ---- intervals as text ----
// the units, largest first
pub open spec fn fac(i: int) -> nat { if i == 0 { 31_556_952_000 } else if i == 1 { 2_629_746_000 } else if i == 2 { 604_800_000 } else if i == 3 { 86_400_000 } else if i == 4 { 3_600_000 } else if i == 5 { 60_000 } else if i == 6 { 1000 } else { 1 } }
pub open spec fn unit(i: int) -> Seq<char> { if i == 0 { seq!['y'] } else if i == 1 { seq!['M'] } else if i == 2 { seq!['w'] } else if i == 3 { seq!['d'] } else if i == 4 { seq!['h'] } else if i == 5 { seq!['m'] } else if i == 6 { seq!['s'] } else { seq!['m', 's'] } }
// canonical text: the non-zero units from the largest to the smallest, each once
pub open spec fn text_from(x: nat, i: int) -> Seq<char> decreases 8 - i {
    if i >= 8 { seq![] } else { (if x / fac(i) > 0 { dec(x / fac(i)) + unit(i) } else { seq![] }) + text_from(x % fac(i), i + 1) } }
pub open spec fn shown(x: nat) -> Seq<char> { if x == 0 { seq!['0', 'm', 's'] } else { text_from(x, 0) } }
// well-formed text: one or more groups of a decimal number and a unit, in any order; it means the sum
pub struct Group { pub num: Seq<char>, pub unit: int }
pub open spec fn group_ok(g: Group) -> bool { g.num.len() > 0 && all_dig(g.num) && 0 <= g.unit < 8 }
pub open spec fn groups_ok(gs: Seq<Group>) -> bool { forall|i: int| 0 <= i < gs.len() ==> group_ok(#[trigger] gs[i]) }
pub open spec fn flat(gs: Seq<Group>) -> Seq<char> decreases gs.len() { if gs.len() == 0 { seq![] } else { gs[0].num + unit(gs[0].unit) + flat(gs.skip(1)) } }
pub open spec fn total(gs: Seq<Group>) -> nat decreases gs.len() { if gs.len() == 0 { 0 } else { val(gs[0].num) * fac(gs[0].unit) + total(gs.skip(1)) } }
pub open spec fn spells(s: Seq<char>, n: nat) -> bool { exists|gs: Seq<Group>| gs.len() > 0 && #[trigger] groups_ok(gs) && flat(gs) == s && total(gs) == n }
// ---- the same, read from left to right ----
pub open spec fn digs(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || !is_dig(s[0]) { 0 } else { 1 + digs(s.skip(1)) } }
pub open spec fn alphas(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || !is_alpha(s[0]) { 0 } else { 1 + alphas(s.skip(1)) } }
pub open spec fn unit_no(u: Seq<char>) -> Option<int> { if u == unit(0) { Some(0) } else if u == unit(1) { Some(1) } else if u == unit(2) { Some(2) } else if u == unit(3) { Some(3) }
    else if u == unit(4) { Some(4) } else if u == unit(5) { Some(5) } else if u == unit(6) { Some(6) } else if u == unit(7) { Some(7) } else { None } }
pub open spec fn read(s: Seq<char>) -> Option<nat> decreases s.len() {
    let k = digs(s);
    if !(0 < k < s.len()) { None } else {
        let t = s.skip(k);
        let m = alphas(t);
        match unit_no(t.take(m)) {
            None => None,
            Some(u) => if !(0 < m <= t.len()) { None } else {
                let v = val(s.take(k)) * fac(u);
                if m == t.len() { Some(v) } else { match read(t.skip(m)) { Some(w) => Some(v + w), None => None } }
            },
        }
    } }
pub proof fn lemma_digs(s: Seq<char>) ensures 0 <= digs(s) <= s.len(), all_dig(s.take(digs(s))), digs(s) < s.len() ==> !is_dig(s[digs(s)]) decreases s.len()
{
    if s.len() > 0 && is_dig(s[0]) {
        let t = s.skip(1);
        lemma_digs(t);
        assert forall|i: int| 0 <= i < digs(s) implies is_dig(#[trigger] s.take(digs(s))[i]) by { if i > 0 { assert(s[i] == t[i - 1]); assert(is_dig(t.take(digs(t))[i - 1])); } }
        if digs(s) < s.len() { assert(t[digs(t)] == s[digs(s)]); }
    }
}
pub proof fn lemma_digs_is(s: Seq<char>, k: int) requires 0 <= k <= s.len(), all_dig(s.take(k)), k == s.len() || !is_dig(s[k]) ensures digs(s) == k decreases s.len()
{
    if k > 0 {
        let t = s.skip(1);
        assert(is_dig(s.take(k)[0])); assert(s.take(k)[0] == s[0]);
        assert forall|i: int| 0 <= i < k - 1 implies is_dig(#[trigger] t.take(k - 1)[i]) by { assert(s.take(k)[i + 1] == t.take(k - 1)[i]); }
        if k < s.len() { assert(t[k - 1] == s[k]); }
        lemma_digs_is(t, k - 1);
    }
}
pub open spec fn all_alpha(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_alpha(#[trigger] s[i]) }
pub proof fn lemma_alphas(s: Seq<char>) ensures 0 <= alphas(s) <= s.len(), all_alpha(s.take(alphas(s))), alphas(s) < s.len() ==> !is_alpha(s[alphas(s)]) decreases s.len()
{
    if s.len() > 0 && is_alpha(s[0]) {
        let t = s.skip(1);
        lemma_alphas(t);
        assert forall|i: int| 0 <= i < alphas(s) implies is_alpha(#[trigger] s.take(alphas(s))[i]) by { if i > 0 { assert(s[i] == t[i - 1]); assert(is_alpha(t.take(alphas(t))[i - 1])); } }
        if alphas(s) < s.len() { assert(t[alphas(t)] == s[alphas(s)]); }
    }
}
pub proof fn lemma_alphas_is(s: Seq<char>, k: int) requires 0 <= k <= s.len(), all_alpha(s.take(k)), k == s.len() || !is_alpha(s[k]) ensures alphas(s) == k decreases s.len()
{
    if k > 0 {
        let t = s.skip(1);
        assert(is_alpha(s.take(k)[0])); assert(s.take(k)[0] == s[0]);
        assert forall|i: int| 0 <= i < k - 1 implies is_alpha(#[trigger] t.take(k - 1)[i]) by { assert(s.take(k)[i + 1] == t.take(k - 1)[i]); }
        if k < s.len() { assert(t[k - 1] == s[k]); }
        lemma_alphas_is(t, k - 1);
    }
}
pub proof fn lemma_unit_no(i: int) requires 0 <= i < 8 ensures unit_no(unit(i)) == Some(i), all_alpha(unit(i)), unit(i).len() > 0
{
    assert(unit(7).len() == 2); assert forall|j: int| 0 <= j < 7 implies #[trigger] unit(j).len() == 1 by {}
    assert(unit(0)[0] == 'y'); assert(unit(1)[0] == 'M'); assert(unit(2)[0] == 'w'); assert(unit(3)[0] == 'd'); assert(unit(4)[0] == 'h'); assert(unit(5)[0] == 'm'); assert(unit(6)[0] == 's');
}
pub open spec fn cons(g: Group, gs: Seq<Group>) -> Seq<Group> { seq![g] + gs }
pub proof fn lemma_cons(g: Group, gs: Seq<Group>)
    ensures flat(cons(g, gs)) == g.num + unit(g.unit) + flat(gs), total(cons(g, gs)) == val(g.num) * fac(g.unit) + total(gs), group_ok(g) && groups_ok(gs) ==> groups_ok(cons(g, gs)), cons(g, gs).len() == gs.len() + 1
{
    let c = cons(g, gs);
    assert(c.len() > 0); assert(c[0] == g); assert(c.skip(1) =~= gs);
    if group_ok(g) && groups_ok(gs) { assert forall|i: int| 0 <= i < c.len() implies group_ok(#[trigger] c[i]) by { if i > 0 { assert(c[i] == gs[i - 1]); } } }
}
pub proof fn lemma_uncons(gs: Seq<Group>) requires gs.len() > 0 ensures gs == cons(gs[0], gs.skip(1)), groups_ok(gs) ==> group_ok(gs[0]) && groups_ok(gs.skip(1))
{
    assert(gs =~= cons(gs[0], gs.skip(1)));
    if groups_ok(gs) { let r = gs.skip(1); assert forall|i: int| 0 <= i < r.len() implies group_ok(#[trigger] r[i]) by { assert(r[i] == gs[i + 1]); } }
}
// one step of reading
pub proof fn lemma_step(s: Seq<char>, k: int, m: int)
    requires 0 < k < s.len(), all_dig(s.take(k)), !is_dig(s[k]), 0 <= m <= s.len() - k, all_alpha(s.skip(k).take(m)), m == s.len() - k || !is_alpha(s.skip(k)[m])
    ensures read(s) == (match unit_no(s.skip(k).take(m)) { None => None, Some(u) => { let v = val(s.take(k)) * fac(u); if k + m == s.len() { Some(v) } else { match read(s.skip(k).skip(m)) { Some(w) => Some(v + w), None => None } } } })
{
    lemma_digs_is(s, k); lemma_alphas_is(s.skip(k), m);
    let u = s.skip(k).take(m);
    if m == 0 && unit_no(u) is Some { lemma_unit_no(unit_no(u)->0); assert(u == unit(unit_no(u)->0)); }
}
// well-formed text is read as what it spells ...
pub proof fn lemma_read_groups(gs: Seq<Group>) requires gs.len() > 0, groups_ok(gs) ensures read(flat(gs)) == Some(total(gs)), flat(gs).len() > 0, is_dig(flat(gs)[0]) decreases gs.len()
{
    lemma_uncons(gs);
    let (g, r, s) = (gs[0], gs.skip(1), flat(gs));
    lemma_cons(g, r);
    let (k, m) = (g.num.len() as int, unit(g.unit).len() as int);
    lemma_unit_no(g.unit);
    assert(s.len() == k + m + flat(r).len());
    assert(s[0] == g.num[0]);
    assert(s.take(k) =~= g.num);
    assert(s[k] == unit(g.unit)[0]); assert(is_alpha(unit(g.unit)[0]));
    let t = s.skip(k);
    assert(t =~= unit(g.unit) + flat(r));
    assert(t.take(m) =~= unit(g.unit));
    assert(t.skip(m) =~= flat(r));
    if r.len() > 0 { lemma_read_groups(r); assert(t[m] == flat(r)[0]); } else { assert(flat(r).len() == 0); assert(total(r) == 0); }
    lemma_step(s, k, m);
}
// ... and nothing else is read
pub proof fn lemma_read_spells(s: Seq<char>) requires read(s) is Some ensures spells(s, read(s)->0) decreases s.len()
{
    let k = digs(s);
    let t = s.skip(k);
    let m = alphas(t);
    lemma_digs(s); lemma_alphas(t);
    lemma_step(s, k, m);
    let u = unit_no(t.take(m))->0;
    let g = Group { num: s.take(k), unit: u };
    assert(t.take(m) == unit(u)); assert(group_ok(g));
    if m == t.len() {
        let e = Seq::<Group>::empty();
        lemma_cons(g, e);
        assert(t.take(m) =~= t);
        assert(flat(e).len() == 0); assert(total(e) == 0); assert(groups_ok(e));
        assert(flat(cons(g, e)) =~= s);
        assert(groups_ok(cons(g, e)));
    } else {
        lemma_unit_no(u);
        lemma_read_spells(t.skip(m));
        let rs = choose|rs: Seq<Group>| rs.len() > 0 && #[trigger] groups_ok(rs) && flat(rs) == t.skip(m) && total(rs) == read(t.skip(m))->0;
        lemma_cons(g, rs);
        assert(flat(cons(g, rs)) =~= s);
        assert(groups_ok(cons(g, rs)));
    }
}
pub proof fn lemma_read(s: Seq<char>, n: nat) ensures spells(s, n) <==> read(s) == Some(n)
{
    if spells(s, n) { lemma_read_groups(choose|gs: Seq<Group>| gs.len() > 0 && #[trigger] groups_ok(gs) && flat(gs) == s && total(gs) == n); }
    if read(s) is Some { lemma_read_spells(s); }
}
// the canonical text spells the interval
pub open spec fn groups_from(x: nat, i: int) -> Seq<Group> decreases 8 - i {
    if i >= 8 { seq![] } else { (if x / fac(i) > 0 { seq![Group { num: dec(x / fac(i)), unit: i }] } else { seq![] }) + groups_from(x % fac(i), i + 1) } }
pub proof fn lemma_groups_from(x: nat, i: int) requires 0 <= i <= 8, i == 8 ==> x == 0
    ensures groups_ok(groups_from(x, i)), flat(groups_from(x, i)) == text_from(x, i), total(groups_from(x, i)) == x, x > 0 ==> groups_from(x, i).len() > 0, x == 0 ==> text_from(x, i).len() == 0,
        forall|j: int| 0 <= j < groups_from(x, i).len() ==> i <= (#[trigger] groups_from(x, i)[j]).unit,
    decreases 8 - i
{
    if i < 8 {
        let (q, r) = (x / fac(i), x % fac(i));
        assert(x == q * fac(i) + r) by (nonlinear_arith) requires q == x / fac(i), r == x % fac(i), fac(i) > 0;
        if i == 7 { assert(fac(7) == 1); assert(r == 0); }
        lemma_groups_from(r, i + 1);
        let (gs, ts) = (groups_from(x, i), groups_from(r, i + 1));
        if q > 0 {
            lemma_dec(q);
            let g = Group { num: dec(q), unit: i };
            assert(gs =~= cons(g, ts));
            lemma_cons(g, ts);
            assert(flat(gs) =~= text_from(x, i));
        } else { assert(gs =~= ts); assert(text_from(x, i) =~= text_from(r, i + 1)); assert(q * fac(i) == 0) by (nonlinear_arith) requires q == 0; }
        if x == 0 { assert(q == 0 && r == 0) by (nonlinear_arith) requires q == 0nat / fac(i), r == 0nat % fac(i), fac(i) > 0; }
    }
}
pub proof fn lemma_text_step(x: nat, i: int) requires 0 <= i < 8
    ensures text_from(x, i) == (if x / fac(i) > 0 { dec(x / fac(i)) + unit(i) } else { seq![] }) + text_from(x % fac(i), i + 1),
        x % fac(i) == 0 ==> text_from(x % fac(i), i + 1).len() == 0,
        i == 7 ==> x % fac(i) == 0,
{ assert(fac(7) == 1); if x % fac(i) == 0 { lemma_groups_from(x % fac(i), i + 1); } }
// each unit at most once, from the largest to the smallest, only non-zero amounts
pub proof fn lemma_canonical(x: nat, i: int) requires 0 <= i <= 8, i == 8 ==> x == 0
    ensures forall|a: int, b: int| 0 <= a < b < groups_from(x, i).len() ==> (#[trigger] groups_from(x, i)[a]).unit < (#[trigger] groups_from(x, i)[b]).unit,
        forall|a: int| 0 <= a < groups_from(x, i).len() ==> val((#[trigger] groups_from(x, i)[a]).num) > 0 && groups_from(x, i)[a].num == dec(val(groups_from(x, i)[a].num)),
    decreases 8 - i
{
    if i < 8 {
        let (q, r) = (x / fac(i), x % fac(i));
        if i == 7 { assert(fac(7) == 1); assert(r == 0); }
        lemma_canonical(r, i + 1);
        lemma_groups_from(r, i + 1);
        let (gs, ts) = (groups_from(x, i), groups_from(r, i + 1));
        if q > 0 { lemma_dec(q); let g = Group { num: dec(q), unit: i }; assert(gs =~= seq![g] + ts);
            assert forall|a: int, b: int| 0 <= a < b < gs.len() implies (#[trigger] gs[a]).unit < (#[trigger] gs[b]).unit by { assert(gs[b] == ts[b - 1]); if a > 0 { assert(gs[a] == ts[a - 1]); } }
            assert forall|a: int| 0 <= a < gs.len() implies val((#[trigger] gs[a]).num) > 0 && gs[a].num == dec(val(gs[a].num)) by { if a > 0 { assert(gs[a] == ts[a - 1]); } }
        } else { assert(gs =~= ts); }
    }
}
// ---- the property for intervals ----
pub proof fn every_interval_reads_back(x: nat) ensures spells(shown(x), x), read(shown(x)) == Some(x)
{
    if x == 0 {
        let (g, e) = (Group { num: seq!['0'], unit: 7 }, Seq::<Group>::empty());
        lemma_cons(g, e);
        assert(flat(e).len() == 0); assert(total(e) == 0); assert(groups_ok(e));
        assert(flat(cons(g, e)) =~= seq!['0', 'm', 's']);
        assert(g.num.drop_last() =~= Seq::<char>::empty()); assert(val(Seq::<char>::empty()) == 0);
        assert(g.num.last() == '0'); assert(val(g.num) == 0);
        assert(groups_ok(cons(g, e)));
    } else { lemma_groups_from(x, 0); assert(groups_ok(groups_from(x, 0))); }
    lemma_read(shown(x), x);
}
// the meaning of a text is unique
pub proof fn no_text_means_two_intervals(s: Seq<char>, a: nat, b: nat) requires spells(s, a), spells(s, b) ensures a == b { lemma_read(s, a); lemma_read(s, b); }

/*@const juno/src/primitives/interval.rs INTERVAL_FACTORS
@*/
pub proof fn lemma_factors() ensures INTERVAL_FACTORS@.len() == 8, forall|i: int| 0 <= i < 8 ==> (#[trigger] INTERVAL_FACTORS@[i]).0@ == unit(i) && INTERVAL_FACTORS@[i].1 == fac(i)
{
    reveal_strlit("y"); reveal_strlit("M"); reveal_strlit("w"); reveal_strlit("d"); reveal_strlit("h"); reveal_strlit("m"); reveal_strlit("s"); reveal_strlit("ms");
    assert forall|i: int| 0 <= i < 8 implies (#[trigger] INTERVAL_FACTORS@[i]).0@ == unit(i) && INTERVAL_FACTORS@[i].1 == fac(i) by {
        if i == 0 { assert(INTERVAL_FACTORS@[0].0@ =~= unit(0)); } else if i == 1 { assert(INTERVAL_FACTORS@[1].0@ =~= unit(1)); } else if i == 2 { assert(INTERVAL_FACTORS@[2].0@ =~= unit(2)); }
        else if i == 3 { assert(INTERVAL_FACTORS@[3].0@ =~= unit(3)); } else if i == 4 { assert(INTERVAL_FACTORS@[4].0@ =~= unit(4)); } else if i == 5 { assert(INTERVAL_FACTORS@[5].0@ =~= unit(5)); }
        else if i == 6 { assert(INTERVAL_FACTORS@[6].0@ =~= unit(6)); } else { assert(INTERVAL_FACTORS@[7].0@ =~= unit(7)); }
    }
}
// HashMap<&'static str, u64> collected from pairs: later entries replace earlier ones (TRUSTED contract of the standard library)
#[verifier::external_body] pub struct UnitMap { x: u8 }
impl View for UnitMap { type V = Map<Seq<char>, u64>; uninterp spec fn view(&self) -> Map<Seq<char>, u64>; }
pub open spec fn entries(s: Seq<(&'static str, u64)>) -> Map<Seq<char>, u64> decreases s.len() { if s.len() == 0 { Map::empty() } else { entries(s.drop_last()).insert(s.last().0@, s.last().1) } }
impl UnitMap { #[verifier::external_body] pub fn get<T: Text + ?Sized>(&self, k: &T) -> (r: Option<&u64>) ensures r is Some == self@.contains_key(k.tx()), r is Some ==> *(r->0) == self@[k.tx()] { unimplemented!() } }
#[verifier::external_body] pub fn unit_map(s: &[(&'static str, u64)]) -> (r: UnitMap) ensures r@ == entries(s@) { unimplemented!() }
pub open spec fn units_map(m: Map<Seq<char>, u64>) -> bool { forall|u: Seq<char>| (#[trigger] m.contains_key(u)) == (unit_no(u) is Some) && (unit_no(u) is Some ==> m[u] == fac(unit_no(u)->0)) }
pub proof fn lemma_entries(k: int) requires 0 <= k <= 8
    ensures forall|u: Seq<char>| (#[trigger] entries(INTERVAL_FACTORS@.take(k)).contains_key(u)) == (unit_no(u) is Some && unit_no(u)->0 < k) && (entries(INTERVAL_FACTORS@.take(k)).contains_key(u) ==> entries(INTERVAL_FACTORS@.take(k))[u] == fac(unit_no(u)->0))
    decreases k
{
    if k > 0 {
        lemma_entries(k - 1); lemma_factors(); lemma_unit_no(k - 1);
        let s = INTERVAL_FACTORS@;
        assert(s.take(k).drop_last() =~= s.take(k - 1)); assert(s.take(k).last() == s[k - 1]);
        assert forall|u: Seq<char>| (#[trigger] entries(s.take(k)).contains_key(u)) == (unit_no(u) is Some && unit_no(u)->0 < k) && (entries(s.take(k)).contains_key(u) ==> entries(s.take(k))[u] == fac(unit_no(u)->0)) by {
            assert(entries(s.take(k)) == entries(s.take(k - 1)).insert(unit(k - 1), fac(k - 1) as u64));
            assert(entries(s.take(k - 1)).contains_key(u) == (unit_no(u) is Some && unit_no(u)->0 < k - 1));
            if unit_no(u) == Some(k - 1) { assert(u == unit(k - 1)); }
        }
    } else { assert(INTERVAL_FACTORS@.take(0) =~= Seq::empty()); }
}
fn units_() -> (r: UnitMap) ensures units_map(r@)
{ proof { lemma_entries(8); lemma_factors(); assert(INTERVAL_FACTORS@.take(8) =~= INTERVAL_FACTORS@); } let a = INTERVAL_FACTORS; unit_map(&a) }
fn interval_(v: u64) -> (o: Interval) ensures o == Interval(v) { Interval(v) }
/*@lazy juno/src/primitives/interval.rs INTERVAL_FACTOR_MAP
subst: INTERVAL_FACTORS.iter().cloned().collect() => units_()
spec:
    ensures units_map(r@)
@*/
// a Lazy static holds what its initialiser returns
#[verifier::external_body] pub fn INTERVAL_FACTOR_MAP_X() -> (r: &'static UnitMap) ensures units_map(r@) { unimplemented!() }

pub open spec fn fits64(n: Option<nat>) -> Option<u64> { match n { Some(k) => if k <= u64::MAX { Some(k as u64) } else { None }, None => None } }
pub proof fn lemma_here(s: Seq<char>)
    ensures ({ let k = digs(s); let t = s.skip(k); let m = alphas(t);
        &&& 0 <= k <= s.len() && all_dig(s.take(k)) && (k < s.len() ==> !is_dig(s[k]))
        &&& forall|j: int| 0 <= j < k ==> is_dig(#[trigger] s[j])
        &&& 0 <= m <= t.len() && all_alpha(t.take(m)) && (m < t.len() ==> !is_alpha(t[m])) && (m == t.len() ==> t.take(m) == t)
        &&& forall|j: int| 0 <= j < m ==> is_alpha(#[trigger] t[j])
        &&& unit_no(t.take(m)) is Some ==> m > 0 && val(s.take(k)) * fac(unit_no(t.take(m))->0) >= val(s.take(k)) && 0 <= unit_no(t.take(m))->0 < 8
        &&& (k == 0 ==> s.take(k).len() == 0)
        &&& t.skip(m).len() == t.len() - m
        &&& (!(0 < k < s.len()) ==> read(s) is None)
        &&& (0 < k < s.len() ==> read(s) == (match unit_no(t.take(m)) { None => None, Some(u) => { let v = val(s.take(k)) * fac(u); if m == t.len() { Some(v) } else { match read(t.skip(m)) { Some(w) => Some(v + w), None => None } } } })) })
{
    let k = digs(s); let t = s.skip(k); let m = alphas(t);
    lemma_digs(s); lemma_alphas(t);
    assert forall|j: int| 0 <= j < k implies is_dig(#[trigger] s[j]) by { assert(s.take(k)[j] == s[j]); }
    assert forall|j: int| 0 <= j < m implies is_alpha(#[trigger] t[j]) by { assert(t.take(m)[j] == t[j]); }
    if m == t.len() { assert(t.take(m) =~= t); }
    let un = unit_no(t.take(m));
    if un is Some { lemma_unit_no(un->0); assert(t.take(m) == unit(un->0)); let (v, f) = (val(s.take(k)), fac(un->0)); assert(v * f >= v) by (nonlinear_arith) requires f >= 1; }
}
/*@fn juno/src/primitives/interval.rs parse_interval
ret: r
spec:
    ensures r == fits64(read(s@)),
head:
    hide(read); hide(digs); hide(alphas); hide(unit_no); hide(fac); hide(val); hide(blen);
closure 0:
    |$P0: char| -> (o: bool)
        ensures o == !is_dig($P0),
closure 1:
    |$P0: char| -> (o: bool)
        ensures o == !is_alpha($P0),
loop 0 inv:
    invariant total <= u64::MAX, read(s@) == (match read(rest@) { Some(n) => Some((total + n) as nat), None => None::<nat> }),
    decreases rest@.len(),
loop 0 head:
    proof { lemma_here(rest@); }
@*/
pub struct ParseError;
pub trait FromStr: Sized { type Err; spec fn meaning(s: Seq<char>) -> Option<Self>; fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures r is Ok == Self::meaning(s@) is Some, r is Ok ==> r->Ok_0 == Self::meaning(s@)->0; }
pub trait Display { spec fn text(&self) -> Seq<char>; spec fn can(&self) -> bool; fn fmt(&self, f: &mut Formatter) -> (r: Result<(), FmtError>) requires self.can() ensures r is Ok ==> final(f)@ == old(f)@ + self.text(); }
impl Display for Interval {
    open spec fn text(&self) -> Seq<char> { shown(self.0 as nat) }
    open spec fn can(&self) -> bool { true }
/*@fn juno/src/primitives/interval.rs Interval::fmt::Display::fmt
flag: novis
flag: strlits
head:
    proof { lemma_factors(); lemma_groups_from(self.0 as nat, 0); }
loop 0 inv:
    invariant_except_break i_0 <= 8, result@ + text_from(remainder as nat, i_0 as int) =~= text_from(self.0 as nat, 0),
    invariant s_0@ == INTERVAL_FACTORS@,
    ensures result@ =~= text_from(self.0 as nat, 0),
    decreases 8 - i_0,
loop 0 head:
    proof { lemma_factors(); lemma_text_step(remainder as nat, i_0 - 1); assert(INTERVAL_FACTORS@[i_0 - 1].1 == fac(i_0 - 1)); }
@*/
}
impl FromStr for Interval {
    type Err = ParseError;
    open spec fn meaning(s: Seq<char>) -> Option<Interval> { match fits64(read(s)) { Some(n) => Some(Interval(n)), None => None } }
/*@fn juno/src/primitives/interval.rs Interval::FromStr::from_str
subst: Self => interval_
flag: novis
@*/
}

// ---- instants as text ----
// what the `time` crate reads from RFC 3339 text and from a calendar day, and how it prints (TRUSTED); ns since the epoch
pub uninterp spec fn rfc(s: Seq<char>) -> Option<int>;
pub uninterp spec fn rfc_text(ns: int) -> Seq<char>;
pub uninterp spec fn day(form: Seq<char>, s: Seq<char>) -> Option<Date>;
// the text form of an instant up to the year 9999 reads as that instant
pub broadcast axiom fn axiom_rfc(ns: int) requires 0 <= ns < MAX_NANOS() ensures rfc(#[trigger] rfc_text(ns)) == Some(ns);
pub struct Rfc3339;
#[verifier::external_body] #[derive(Debug)] pub struct TimeError { x: u8 }
#[verifier::external_body] pub struct Form { x: u8 }
impl View for Form { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
// parsing a fixed, valid format description succeeds
pub mod format_description { use super::*; #[verifier::external_body] pub fn parse(s: &str) -> (r: Result<Form, TimeError>) ensures r is Ok, r->Ok_0@ == s@ { unimplemented!() } }
impl OffsetDateTime {
    #[verifier::external_body] pub fn from_unix_timestamp(n: i64) -> (r: Result<OffsetDateTime, ComponentRange>) ensures 0 <= n * 1_000_000_000 < MAX_NANOS() ==> r is Ok && r->Ok_0@ == n * 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn unix_timestamp(self) -> (r: i64) ensures r == self@ / 1_000_000_000 { unimplemented!() }
    #[verifier::external_body] pub fn parse(s: &str, f: &Rfc3339) -> (r: Result<OffsetDateTime, TimeError>) ensures r is Ok == rfc(s@) is Some, r is Ok ==> r->Ok_0@ == rfc(s@)->0 { unimplemented!() }
    #[verifier::external_body] pub fn format(self, f: &Rfc3339) -> (r: Result<Txt, TimeError>) ensures 0 <= self@ < MAX_NANOS() ==> r is Ok && r->Ok_0@ == rfc_text(self@) { unimplemented!() }
}
impl Date { #[verifier::external_body] pub fn parse(s: &str, f: &Form) -> (r: Result<Date, TimeError>) ensures r is Ok == day(f@, s@) is Some, r is Ok ==> r->Ok_0 == day(f@, s@)->0 { unimplemented!() } }
pub assume_specification<T, E, F, O: FnOnce(E) -> Result<T, F>> [Result::<T, E>::or_else] (x: Result<T, E>, op: O) -> (r: Result<T, F>)
    requires x is Err ==> op.requires((x->Err_0,)) ensures x is Ok ==> r == Ok::<T, F>(x->Ok_0), x is Err ==> op.ensures((x->Err_0,), r);
pub assume_specification<T, E, U, O: FnOnce(T) -> Result<U, E>> [Result::<T, E>::and_then] (x: Result<T, E>, op: O) -> (r: Result<U, E>)
    requires x is Ok ==> op.requires((x->Ok_0,)) ensures x is Err ==> r == Err::<U, E>(x->Err_0), x is Ok ==> op.ensures((x->Ok_0,), r);
pub assume_specification [i128::div_euclid] (a: i128, b: i128) -> (r: i128) requires b > 0 ensures r == a as int / b as int;
pub open spec fn YMD() -> Seq<char> { "[year]-[month]-[day]"@ }
/*@lazy juno/src/primitives/timestamp.rs DATE_FORMAT
spec:
    ensures r@ == YMD()
@*/
#[verifier::external_body] pub fn DATE_FORMAT_X() -> (r: &'static Form) ensures r@ == YMD() { unimplemented!() }
// RFC 3339 text means its instant, a plain day its midnight in UTC; instants before the epoch have no Timestamp; finer parts than a millisecond are dropped
pub open spec fn instant(s: Seq<char>) -> Option<int> { match rfc(s) { Some(n) => Some(n), None => match day(YMD(), s) { Some(d) => Some(date_ns(d.k(), d.day(), 0)), None => None } } }
pub open spec fn ts_meaning(s: Seq<char>) -> Option<Timestamp> { match instant(s) { Some(n) => if 0 <= n / 1_000_000 <= u64::MAX { Some(Timestamp((n / 1_000_000) as u64)) } else { None }, None => None } }
pub proof fn every_instant_reads_back(t: Timestamp) requires t.0 < MAX_TS() ensures ts_meaning(rfc_text(t.0 * 1_000_000)) == Some(t)
{ broadcast use axiom_rfc; }
fn timestamp_(v: u64) -> (o: Timestamp) ensures o == Timestamp(v) { Timestamp(v) }
impl Display for Timestamp {
    open spec fn text(&self) -> Seq<char> { rfc_text(self.0 * 1_000_000) }
    open spec fn can(&self) -> bool { self.0 < MAX_TS() }
/*@fn juno/src/primitives/timestamp.rs Timestamp::fmt::Display::fmt
flag: novis
head:
    proof { lemma_max_ts(); }
@*/
}
impl FromStr for Timestamp {
    type Err = ParseError;
    open spec fn meaning(s: Seq<char>) -> Option<Timestamp> { ts_meaning(s) }
/*@fn juno/src/primitives/timestamp.rs Timestamp::FromStr::from_str
subst: UtcOffset::UTC => UtcOffset::utc()
subst: Self => timestamp_
subst: DATE_FORMAT => DATE_FORMAT_X()
flag: novis
closure 0:
    |$P0: TimeError| -> (o: Result<OffsetDateTime, TimeError>)
        ensures o is Ok == day(YMD(), s@) is Some, o is Ok ==> o->Ok_0@ == date_ns(day(YMD(), s@)->0.k(), day(YMD(), s@)->0.day(), 0),
closure 1:
    |$P0: Date| -> (o: OffsetDateTime)
        ensures o@ == date_ns($P0.k(), $P0.day(), 0),
closure 2:
    |$P0: TimeError| -> (o: ParseError)
closure 3:
    |$P0: OffsetDateTime| -> (o: Result<u64, ParseError>)
        ensures o is Ok == (0 <= $P0@ / 1_000_000 <= u64::MAX), o is Ok ==> o->Ok_0 == $P0@ / 1_000_000,
closure 4:
    |$P0: core::num::TryFromIntError| -> (o: ParseError)
@*/
}
// ---- reading either form from serialised data ----
pub mod de { pub enum Unexpected<'a> { Str(&'a str) } pub trait Error: Sized { fn invalid_value<V>(u: Unexpected<'_>, v: &V) -> Self; } }
pub trait Visitor: Sized {
    type Value;
    spec fn of_number(v: u64) -> Self::Value;
    spec fn of_text(s: Seq<char>) -> Option<Self::Value>;
    fn visit_u64<E: de::Error>(self, v: u64) -> (r: Result<Self::Value, E>) ensures r is Ok, r->Ok_0 == Self::of_number(v);
    fn visit_str<E: de::Error>(self, v: &str) -> (r: Result<Self::Value, E>) ensures r is Ok == Self::of_text(v@) is Some, r is Ok ==> r->Ok_0 == Self::of_text(v@)->0;
}
/*@struct juno/src/primitives/interval.rs IntervalVisitor
@*/
/*@struct juno/src/primitives/timestamp.rs TimestampVisitor
@*/
impl Visitor for IntervalVisitor {
    type Value = Interval;
    open spec fn of_number(v: u64) -> Interval { Interval(v) }
    open spec fn of_text(s: Seq<char>) -> Option<Interval> { Interval::meaning(s) }
/*@fn juno/src/primitives/interval.rs IntervalVisitor::visit_u64
flag: novis
@*/
/*@fn juno/src/primitives/interval.rs IntervalVisitor::visit_str
flag: novis
closure 0:
    |$P0: ParseError| -> (o: E)
@*/
}
impl Visitor for TimestampVisitor {
    type Value = Timestamp;
    open spec fn of_number(v: u64) -> Timestamp { Timestamp(v) }
    open spec fn of_text(s: Seq<char>) -> Option<Timestamp> { Timestamp::meaning(s) }
/*@fn juno/src/primitives/timestamp.rs TimestampVisitor::visit_u64
flag: novis
@*/
/*@fn juno/src/primitives/timestamp.rs TimestampVisitor::visit_str
flag: novis
closure 0:
    |$P0: ParseError| -> (o: E)
@*/
}
}
fn main(){}

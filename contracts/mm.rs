// ---- lowest and highest of a non-empty series ----
pub open spec fn flow(s: Seq<Fl>) -> real decreases s.len() { if s.len() <= 1 { s[0].v() } else if s.last().v() < flow(s.drop_last()) { s.last().v() } else { flow(s.drop_last()) } }
pub open spec fn fhigh(s: Seq<Fl>) -> real decreases s.len() { if s.len() <= 1 { s[0].v() } else if s.last().v() > fhigh(s.drop_last()) { s.last().v() } else { fhigh(s.drop_last()) } }
pub proof fn lemma_low_high(s: Seq<Fl>) requires s.len() > 0
    ensures forall|i: int| 0 <= i < s.len() ==> flow(s) <= (#[trigger] s[i]).v() <= fhigh(s),
        exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).v() == flow(s), exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).v() == fhigh(s),
    decreases s.len()
{
    if s.len() > 1 {
        let t = s.drop_last();
        lemma_low_high(t);
        assert forall|i: int| 0 <= i < s.len() implies flow(s) <= (#[trigger] s[i]).v() <= fhigh(s) by { if i < t.len() { assert(t[i] == s[i]); } }
        let a = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).v() == flow(t);
        let b = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).v() == fhigh(t);
        assert(s[a] == t[a] && s[b] == t[b]); assert(s[s.len() - 1] == s.last());
    } else { assert(s[0].v() == flow(s)); }
}

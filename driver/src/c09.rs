use crate::ctx::*;
use crate::ensure;
use juno::utils::*;
use juno::Advice;

const A: [Advice; 4] = [Advice::None, Advice::Long, Advice::Short, Advice::Liquidate];
/// prevailing advice and the number of updates since it came (from the whole history)
fn prevailing(h: &[Advice]) -> (Advice, u32) {
    // the last update whose advice is real and differs from the previous real advice
    let (mut last, mut at) = (Advice::None, 0);
    for (i, &a) in h.iter().enumerate() {
        if a != Advice::None && a != last { last = a; at = i }
    }
    if last == Advice::None { (last, h.len() as u32) } else { (last, (h.len() - at) as u32) }
}
fn check(h: &[Advice], level: u32) -> Out {
    let mut ch = Changed::new(true);
    let mut off = Changed::new(false);
    let mut mt = [MidTrend::new(MidTrendPolicy::Current), MidTrend::new(MidTrendPolicy::Previous), MidTrend::new(MidTrendPolicy::Ignore)];
    let mut ps = Persistence::new(level, false);
    let mut pr = Persistence::new(level, true);
    ensure!(ch.maturity() == 1 && ps.maturity() == level + 1 && mt[0].maturity() == 1 && mt[1].maturity() == 2 && mt[2].maturity() == 2, "declared maturities");
    let mut last_passed = Advice::None;
    for k in 0..h.len() {
        let v = h[k];
        let was = prevailing(&h[..k]).0;
        let exp = if v != Advice::None && v != was { v } else { Advice::None };
        let got = ch.update(v);
        ensure!(got == exp, "step {k}: change filter gave {got:?}, expected {exp:?}");
        let (p, age) = prevailing(&h[..=k]);
        ensure!(ch.prevailing_advice() == p && ch.prevailing_advice_age() == age, "step {k}: prevailing {:?} for {}, expected {p:?} for {age}", ch.prevailing_advice(), ch.prevailing_advice_age());
        ensure!(off.update(v) == v, "step {k}: disabled change filter altered the advice");
        ensure!(mt[0].update(v) == v && mt[1].update(v) == v, "step {k}: mid-trend filter not transparent");
        let free = h[..=k].iter().any(|&x| x != h[0]);
        let (got, exp) = (mt[2].update(v), if free { v } else { Advice::None });
        ensure!(got == exp, "step {k}: mid-trend filter gave {got:?}, expected {exp:?}");
        let run = h[..=k].iter().rev().take_while(|&&x| x == v).count() as u32;
        // a leading run of None counts as repeated from the start
        let passes = level == 0 || run > level;
        if passes { last_passed = v }
        let got = ps.update(v);
        let exp = if passes { v } else { Advice::None };
        ensure!(got == exp, "step {k}: persistence gave {got:?}, expected {exp:?}");
        let got = pr.update(v);
        let exp = if passes { v } else { last_passed };
        ensure!(got == exp, "step {k}: persistence (keeping) gave {got:?}, expected {exp:?}");
    }
    Ok(h.iter().any(|&x| x != Advice::None) && h.iter().any(|&x| x != h[0]))
}
pub fn run(c: &mut Ctx) {
    c.rule = "all advice histories up to length 6 with persistence levels 0..=3, then random longer ones with levels up to 9; every pair of advices combined; non-trivial: at least two different advices".into();
    for a in A {
        for b in A {
            c.case(|| format!("combine {a:?} {b:?}"), || {
                let e = if a == Advice::None || b == Advice::None { Advice::None } else if a == b { a } else { Advice::Liquidate };
                ensure!(combine(a, b) == e, "gave {:?}, expected {e:?}", combine(a, b));
                Ok(a != b)
            });
        }
    }
    for n in 0..=6u32 {
        for code in 0..4u32.pow(n) {
            let h: Vec<Advice> = (0..n).map(|k| A[(code / 4u32.pow(k) % 4) as usize]).collect();
            let level = code % 4;
            c.case(|| format!("level {level} {h:?}"), || check(&h, level));
        }
    }
    for _ in 0..c.n(10_000) {
        if c.done() { return; }
        let n = c.u(5, 60) as usize;
        let stick = c.f(0.2, 0.95);
        let mut cur = c.pick(&A);
        let h: Vec<Advice> = (0..n).map(|_| { if !c.b(stick) { cur = c.pick(&A) } cur }).collect();
        let level = c.u(0, 9) as u32;
        c.case(|| format!("level {level} {h:?}"), || check(&h, level));
    }
}

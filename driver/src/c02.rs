use crate::ctx::*;
use crate::ensure;
use juno::utils::*;

fn cov(s: &[(u64, u64)], x: u64) -> bool {
    s.iter().any(|p| p.0 <= x && x < p.1)
}
fn probes(lists: &[&[(u64, u64)]], extra: &[u64]) -> Vec<u64> {
    let mut v: Vec<u64> = extra.to_vec();
    for l in lists {
        for p in *l {
            v.extend([p.0.saturating_sub(1), p.0, p.1.saturating_sub(1), p.1]);
        }
    }
    v.sort();
    v.dedup();
    v
}
fn check_merge(s: &[(u64, u64)]) -> Out {
    let r = merge_adjacent_spans(s);
    for x in probes(&[s, &r], &[0]) {
        ensure!(cov(s, x) == cov(&r, x), "merge = {r:?}: instant {x} covered {} in input", cov(s, x));
    }
    for w in r.windows(2) {
        ensure!(w[0].1 < w[1].0, "merge = {r:?}: touching or unordered neighbours");
    }
    ensure!(r.iter().all(|p| p.0 <= p.1), "merge = {r:?}: inverted span");
    Ok(s.len() > 1)
}
fn check_missing(a: u64, b: u64, s: &[(u64, u64)]) -> Out {
    let r = generate_missing_spans(a, b, s);
    for x in probes(&[s, &r], &[0, a.saturating_sub(1), a, b.saturating_sub(1), b, b.saturating_add(1)]) {
        let want = a <= x && x < b && !cov(s, x);
        ensure!(cov(&r, x) == want, "missing = {r:?}: instant {x} should be missing: {want}");
    }
    ensure!(r.iter().all(|p| p.0 < p.1 && a <= p.0 && p.1 <= b), "missing = {r:?}: empty or outside span");
    ensure!(r.windows(2).all(|w| w[0].1 <= w[1].0), "missing = {r:?}: unordered");
    Ok(!s.is_empty() && a < b)
}
fn check_page(a: u64, b: u64, iv: u64, limit: u64) -> Out {
    let n = (b - a) as u128;
    let m = iv as u128 * limit as u128;
    let mut expect_count = n / m + u128::from(n % m != 0);
    let mut at = a;
    let mut it = page(a, b, iv, limit);
    let mut k = 0;
    while let Some(p) = it.next() {
        ensure!(p.0 == at, "page {k} = {p:?} starts elsewhere than {at}");
        ensure!(p.0 < p.1 && p.1 <= b, "page {k} = {p:?} is empty or outside");
        ensure!((p.1 - p.0) as u128 <= m, "page {k} = {p:?} is longer than limit*interval");
        at = p.1;
        k += 1;
        if k > 3000 {
            expect_count = 0; // long windows: only the first pages are looked at
            break;
        }
    }
    if expect_count > 0 || n == 0 {
        ensure!(at == b, "pages end at {at}, window at {b}");
    }
    Ok(b > a)
}
pub fn run(c: &mut Ctx) {
    c.rule = "all ordered span lists over a 7-point grid (merge, missing with every window), all page calls up to (12, 12, 5, 5), random spans and pages over 64 bits; non-trivial: more than one span / non-empty list and window / non-empty window".into();
    // every ordered list over a small grid: each cell 0..7 free, start-of-span, or continued
    let n = 7usize;
    let mut lists: Vec<Vec<(u64, u64)>> = vec![];
    for code in 0..3u32.pow(n as u32) {
        let mut v: Vec<(u64, u64)> = vec![];
        let mut x = code;
        let mut ok = true;
        for i in 0..n as u64 {
            match x % 3 {
                1 => v.push((i, i + 1)),
                2 => match v.last_mut() {
                    Some(l) if l.1 == i => l.1 = i + 1,
                    _ => ok = false,
                },
                _ => {}
            }
            x /= 3;
        }
        if ok {
            lists.push(v);
        }
    }
    for l in &lists {
        c.case(|| format!("merge_adjacent_spans({l:?})"), || check_merge(l));
        for a in 0..=8u64 {
            for b in a..=8u64 {
                if c.done() { return; }
                c.case(|| format!("generate_missing_spans({a}, {b}, {l:?})"), || check_missing(a, b, l));
            }
        }
    }
    for a in 0..4u64 {
        for b in a..a + 40 {
            for iv in 1..6u64 {
                for limit in 1..6u64 {
                    c.case(|| format!("page({a}, {b}, {iv}, {limit})"), || check_page(a, b, iv, limit));
                }
            }
        }
    }
    for _ in 0..c.n(20_000) {
        if c.done() { return; }
        let scale = c.u(2, 60);
        let mut pts: Vec<u64> = (0..c.u(0, 12) * 2).map(|_| c.u(0, 1 << scale)).collect();
        pts.sort();
        let mut s: Vec<(u64, u64)> = pts.chunks(2).map(|p| (p[0], p[1])).collect();
        if c.b(0.6) {
            for i in 1..s.len() {
                if c.b(0.4) { s[i].0 = s[i - 1].1; }
            }
        }
        c.case(|| format!("merge_adjacent_spans({s:?})"), || check_merge(&s));
        let (x, y) = (c.u(0, 1 << scale), c.u(0, 1 << scale));
        let (a, b) = (x.min(y), x.max(y));
        c.case(|| format!("generate_missing_spans({a}, {b}, {s:?})"), || check_missing(a, b, &s));
        let iv = if c.b(0.5) { c.pick(&[1000u64, 60_000, 3_600_000, 86_400_000]) } else { { let s = c.u(1, 40); c.u(1, 1 << s) } };
        let limit = c.u(1, 1000);
        let (a, b) = if c.b(0.5) { (a, (a + c.u(0, 20) * iv * limit + c.u(0, iv)).min(1 << 62)) } else { (a, b) };
        if a <= b {
            c.case(|| format!("page({a}, {b}, {iv}, {limit})"), || check_page(a, b, iv, limit));
        }
    }
}

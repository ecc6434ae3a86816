use crate::ctx::*;
use crate::ensure;
use juno::math::*;
use juno::{Interval, Timestamp};

fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
/// starts of all months from 1970-01 to 10000-01, by adding up month lengths
pub fn months() -> Vec<i128> {
    let mut v = vec![0i128];
    let mut t = 0i128;
    for y in 1970..10000i64 {
        for m in 0..12 {
            let d = match m {
                1 => if leap(y) { 29 } else { 28 },
                3 | 5 | 8 | 10 => 30,
                _ => 31,
            };
            t += d as i128 * 86_400_000;
            v.push(t);
        }
    }
    v
}
pub fn ref_floor(t: u64, iv: u64, ms: &[i128]) -> Option<i128> {
    let t = t as i128;
    if iv < 604_800_000 {
        Some(t - t.rem_euclid(iv as i128))
    } else if iv == 604_800_000 {
        let o = 345_600_000i128;
        let r = t - (t - o).rem_euclid(iv as i128);
        if r < 0 { None } else { Some(r) }
    } else {
        let i = ms.partition_point(|x| *x <= t);
        if i == ms.len() { None } else { Some(ms[i - 1]) }
    }
}
pub fn ref_ceil(t: u64, iv: u64, ms: &[i128]) -> Option<i128> {
    let t = t as i128;
    let r = if iv < 604_800_000 {
        t + (-t).rem_euclid(iv as i128)
    } else if iv == 604_800_000 {
        t + (345_600_000i128 - t).rem_euclid(iv as i128)
    } else {
        let i = ms.partition_point(|x| *x < t);
        if i + 1 >= ms.len() { return None; }
        ms[i]
    };
    if r > u64::MAX as i128 { None } else { Some(r) }
}

pub fn run(c: &mut Ctx) {
    c.rule = "instants at, one before and one after boundaries plus uniform and log-uniform ones over 64 bits x intervals; non-trivial: not already aligned".into();
    let ms = months();
    let ivs = [1u64, 2, 3, 7, 999, 1000, 60_000, 180_000, 3_600_000, 86_400_000, 259_200_000, 604_799_999, 604_800_000, 2_629_746_000];
    let one = |c: &mut Ctx, t: u64, iv: u64| {
        let ms = &ms;
        c.case(|| format!("Timestamp({t}) interval {iv}"), || {
            let i = Interval(iv);
            if let Some(f) = ref_floor(t, iv, ms) {
                let r = Timestamp(t).floor(i);
                ensure!(r.0 as i128 == f, "floor = {}, expected {}", r.0, f);
            }
            if let Some(f) = ref_ceil(t, iv, ms) {
                let r = Timestamp(t).ceil(i);
                ensure!(r.0 as i128 == f, "ceil = {}, expected {}", r.0, f);
                if iv < 604_800_000 {
                    let r = Interval(t).ceil(i);
                    ensure!(r.0 as i128 == f, "Interval::ceil = {}, expected {}", r.0, f);
                }
            }
            Ok(t % iv != 0)
        });
    };
    // month and week boundaries
    let step = if c.thorough { 1 } else { 5 };
    for k in (0..ms.len()).step_by(step) {
        for d in [-1i128, 0, 1, 40_000_000] {
            let t = ms[k] + d;
            if t >= 0 && !c.done() {
                one(c, t as u64, 2_629_746_000);
                one(c, t as u64, 604_800_000);
            }
        }
    }
    // small instants exhaustively against small intervals
    for t in 0..60u64 {
        for iv in 1..20u64 {
            one(c, t, iv);
        }
    }
    for _ in 0..c.n(60_000) {
        if c.done() { return; }
        let iv = if c.b(0.7) { c.pick(&ivs) } else { c.u(1, 604_799_999) };
        let t = match c.u(0, 5) {
            0 => c.u(0, u64::MAX),
            1 => c.u(0, 4_102_444_800_000),
            2 => { let s = c.u(0, 63); c.u(0, u64::MAX) >> s }
            3 => { let k = c.u(0, u64::MAX / iv); let d = c.u(0, 2); (k * iv).saturating_add(d).saturating_sub(1) }
            4 => u64::MAX - c.u(0, 2 * iv),
            _ => { let k = c.u(0, 3000); (345_600_000 + k * 604_800_000 + c.u(0, 2)).saturating_sub(1) }
        };
        one(c, t, iv);
    }
    // ceil / floor multiples with offset
    for _ in 0..c.n(40_000) {
        if c.done() { return; }
        let m = match c.u(0, 2) { 0 => c.u(1, 30), 1 => c.u(1, u64::MAX), _ => { let s = c.u(0, 62); (c.u(1, u64::MAX) >> s).max(1) } };
        let o = match c.u(0, 2) { 0 => c.u(0, 40), 1 => c.u(0, m), _ => { let s = c.u(0, 63); c.u(0, u64::MAX) >> s } };
        let v = match c.u(0, 2) { 0 => c.u(0, 60), 1 => c.u(0, u64::MAX), _ => { let s = c.u(0, 63); c.u(0, u64::MAX) >> s } };
        c.case(|| format!("value {v} multiple {m} offset {o}"), || {
            let (vi, mi, oi) = (v as i128, m as i128, o as i128);
            let fl = vi - vi.rem_euclid(mi);
            ensure!(floor_multiple(v, m) as i128 == fl, "floor_multiple = {}, expected {fl}", floor_multiple(v, m));
            let ce = vi + (-vi).rem_euclid(mi);
            if ce <= u64::MAX as i128 {
                ensure!(ceil_multiple(v, m) as i128 == ce, "ceil_multiple = {}, expected {ce}", ceil_multiple(v, m));
            }
            if v >= o {
                let fl = vi - (vi - oi).rem_euclid(mi);
                ensure!(floor_multiple_offset(v, m, o) as i128 == fl, "floor_multiple_offset = {}, expected {fl}", floor_multiple_offset(v, m, o));
            }
            let ce = vi + (oi - vi).rem_euclid(mi);
            if ce <= u64::MAX as i128 {
                ensure!(ceil_multiple_offset(v, m, o) as i128 == ce, "ceil_multiple_offset = {}, expected {ce}", ceil_multiple_offset(v, m, o));
            }
            Ok(v % m != 0)
        });
    }
}

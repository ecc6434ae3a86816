//! Text forms of intervals and instants, against an own reader and calendar.
use crate::c01::months;
use crate::ctx::*;
use crate::ensure;
use juno::{Interval, Timestamp};
use serde_json::{json, Value};
use std::str::FromStr;

const UNITS: [(&str, u64); 8] = [("y", 31_556_952_000), ("M", 2_629_746_000), ("w", 604_800_000), ("d", 86_400_000), ("h", 3_600_000), ("m", 60_000), ("s", 1000), ("ms", 1)];

/// groups of decimal number and unit -> (sum, groups)
fn groups(s: &str) -> Option<(u128, Vec<(u128, usize)>)> {
    let c: Vec<char> = s.chars().collect();
    let (mut i, mut gs, mut sum) = (0, vec![], 0u128);
    while i < c.len() || gs.is_empty() {
        let mut n = 0u128;
        let a = i;
        while i < c.len() && ('0'..='9').contains(&c[i]) {
            n = (n * 10 + (c[i] as u128 - '0' as u128)).min(1 << 80);
            i += 1;
        }
        if i == a { return None; }
        let b = i;
        while i < c.len() && c[i].is_ascii_alphabetic() { i += 1; }
        let u: String = c[b..i].iter().collect();
        let k = UNITS.iter().position(|x| x.0 == u)?;
        sum = (sum + n * UNITS[k].1 as u128).min(1 << 120);
        gs.push((n, k));
    }
    Some((sum, gs))
}
fn interval_of(s: &str) -> Option<u64> { groups(s).and_then(|g| u64::try_from(g.0).ok()) }

fn num(s: &[u8], a: usize, n: usize) -> Option<i128> {
    let x = s.get(a..a + n)?;
    if !x.iter().all(|c| c.is_ascii_digit()) { return None; }
    Some(x.iter().fold(0, |r, c| r * 10 + (c - b'0') as i128))
}
fn leap(y: i128) -> bool { (y % 4 == 0 && y % 100 != 0) || y % 400 == 0 }
/// days since 1970-01-01 of a calendar day
fn days(y: i128, m: i128, d: i128) -> Option<i128> {
    let len = |m: i128| match m { 2 => if leap(y) { 29 } else { 28 }, 4 | 6 | 9 | 11 => 30, _ => 31 };
    if !(1..=12).contains(&m) || d < 1 || d > len(m) { return None; }
    let mut n = 0;
    if y >= 1970 { for k in 1970..y { n += if leap(k) { 366 } else { 365 }; } } else { for k in y..1970 { n -= if leap(k) { 366 } else { 365 }; } }
    for k in 1..m { n += len(k); }
    Some(n + d - 1)
}
/// ns since the epoch of YYYY-MM-DD or YYYY-MM-DDTHH:MM:SS[.f+](Z|+HH:MM|-HH:MM)
fn instant_of(t: &str) -> Option<i128> {
    let s = t.as_bytes();
    let (y, m, d) = (num(s, 0, 4)?, num(s, 5, 2)?, num(s, 8, 2)?);
    if s[4] != b'-' || s[7] != b'-' { return None; }
    let day = days(y, m, d)?;
    if s.len() == 10 { return Some(day * 86_400_000_000_000); }
    let (h, mi, se) = (num(s, 11, 2)?, num(s, 14, 2)?, num(s, 17, 2)?);
    if s[10] != b'T' || s[13] != b':' || s[16] != b':' || h > 23 || mi > 59 || se > 59 { return None; }
    let mut i = 19;
    let mut ns = 0i128;
    if s.get(i) == Some(&b'.') {
        i += 1;
        let a = i;
        let mut w = 100_000_000;
        while i < s.len() && s[i].is_ascii_digit() { ns += w * (s[i] - b'0') as i128; w /= 10; i += 1; }
        if i == a { return None; }
    }
    let off = match s.get(i)? {
        b'Z' => { i += 1; 0 }
        c @ (b'+' | b'-') => {
            let (oh, om) = (num(s, i + 1, 2)?, num(s, i + 4, 2)?);
            if s[i + 3] != b':' || oh > 23 || om > 59 { return None; }
            let sg = if *c == b'+' { 1 } else { -1 };
            i += 6;
            sg * (oh * 3600 + om * 60)
        }
        _ => return None,
    };
    if i != s.len() { return None; }
    Some((day * 86_400 + h * 3600 + mi * 60 + se - off) * 1_000_000_000 + ns)
}

fn interval_value(c: &mut Ctx) -> u64 {
    match c.u(0, 7) {
        0 => c.u(0, 2000),
        1 => { let b = c.u(0, 63); c.u(0, u64::MAX) >> b }
        2 => { let k = c.u(0, 7) as usize; let n = c.u(0, u64::MAX / UNITS[k].1); let n = if c.u(0, 1) == 0 { n } else { n % 100 }; n * UNITS[k].1 }
        3 => { let k = c.u(0, 7) as usize; (c.u(1, 60) * UNITS[k].1) - 1 }
        4 => { let k = c.u(0, 7) as usize; c.u(0, 60) * UNITS[k].1 + 1 }
        5 => u64::MAX - c.u(0, 3),
        6 => { let mut t = 0; for u in UNITS { if c.u(0, 2) == 0 { t += c.u(0, 11) * u.1; } } t }
        _ => c.u(0, u64::MAX),
    }
}
fn interval_text(c: &mut Ctx) -> String {
    let mut s = String::new();
    for _ in 0..c.u(1, 5) {
        if c.u(0, 30) != 0 {
            match c.u(0, 9) {
                0 => s += &"0".repeat(c.u(1, 25) as usize),
                1 => s += &c.u(0, u64::MAX).to_string(),
                2 => { s += &c.u(0, u64::MAX).to_string(); s += "0"; }
                3 => { let k = c.u(0, 7) as usize; s += &(u64::MAX / UNITS[k].1).to_string(); }
                4 => { s += "0"; s += &c.u(0, 99).to_string(); }
                _ => s += &c.u(0, 99).to_string(),
            }
        }
        let k = c.u(0, 7) as usize;
        if c.u(0, 30) != 0 { s += UNITS[k].0; }
    }
    mutate(c, s, &["0", "9", "y", "M", "w", "d", "h", "m", "s", "ms", "Y", "S", "x", "-", "+", " ", ".", "\u{b5}", "\u{663}", "\u{1f600}", "\n", "\0", "_"])
}
fn mutate(c: &mut Ctx, s: String, ins: &[&str]) -> String {
    if c.u(0, 2) != 0 { return s; }
    let mut v: Vec<String> = s.chars().map(|x| x.to_string()).collect();
    for _ in 0..c.u(1, 2) {
        let i = c.u(0, v.len() as u64) as usize;
        let x = ins[c.u(0, ins.len() as u64 - 1) as usize].to_string();
        match c.u(0, 3) {
            0 => v.insert(i, x),
            1 => if i < v.len() { v.remove(i); },
            2 => if i < v.len() { v[i] = x },
            _ => if i < v.len() { v.truncate(i) },
        }
    }
    v.concat()
}
fn instant_text(c: &mut Ctx) -> String {
    let y = match c.u(0, 5) { 0 => 1970, 1 => 1969, 2 => c.u(0, 9999), 3 => 2000 + 100 * c.u(0, 4), _ => c.u(1971, 2100) };
    let m = match c.u(0, 30) { 0 => 0, 1 => 13, 2 | 3 => 2, _ => c.u(1, 12) };
    let d = match c.u(0, 8) { 0 => 1, 1 => 31, 2 => 30, 3 => 29, 4 => c.u(0, 32), _ => c.u(1, 28) };
    let mut s = match c.u(0, 24) { 0 => format!("{y:04}-{m:02}-{d:>2}"), 1 => format!("{y:04}-{m:>2}-{d:02}"), 2 => format!("{y:04}-{m}-{d:02}"), 3 => format!("{y}-{m:02}-{d}"), _ => format!("{y:04}-{m:02}-{d:02}") };
    if c.u(0, 2) != 0 {
        let h = if c.u(0, 20) == 0 { c.u(24, 30) } else { c.u(0, 23) };
        let mi = if c.u(0, 20) == 0 { c.u(60, 99) } else { c.u(0, 59) };
        let se = if c.u(0, 20) == 0 { c.u(61, 99) } else { c.u(0, 59) };
        s += &format!("T{h:02}:{mi:02}:{se:02}");
        if c.u(0, 1) == 0 { s += "."; for _ in 0..c.u(1, 9) { s += &(if c.u(0, 2) == 0 { 9 } else { c.u(0, 9) }).to_string(); } }
        if c.u(0, 1) == 0 { s += "Z"; } else {
            let sg = if c.u(0, 1) == 0 { "+" } else { "-" };
            let (oh, om) = (if c.u(0, 20) == 0 { c.u(24, 99) } else { c.u(0, 23) }, if c.u(0, 20) == 0 { c.u(60, 99) } else { c.u(0, 59) });
            s += &format!("{sg}{oh:02}:{om:02}");
        }
    }
    mutate(c, s, &["0", "9", "T", "Z", ":", "x", ".", "+", "-", "/", "\u{b5}", "\u{663}"])
}

pub fn run(c: &mut Ctx) {
    c.rule = "intervals over 64 bits and instants up to the year 9999 printed and read back; generated and mutated texts against an own reader; non-trivial: more than one group, or a text that is not plain".into();
    let end = *months().last().unwrap();
    let one = |c: &mut Ctx, x: u64| c.case(|| format!("the text of Interval({x})"), || {
        let t = Interval(x).to_string();
        let (sum, gs) = groups(&t).ok_or(format!("{t:?} is not groups of number and unit"))?;
        ensure!(sum == x as u128, "{t:?} spells {sum}");
        ensure!(gs.windows(2).all(|w| w[0].1 < w[1].1), "{t:?}: units out of order");
        ensure!(x == 0 && gs.len() == 1 || gs.iter().all(|g| g.0 > 0), "{t:?}: a zero amount");
        ensure!(!t.bytes().any(|b| b == b'0') || x == 0 || gs.iter().all(|g| t.contains(&format!("{}{}", g.0, UNITS[g.1].0))), "{t:?}: leading zeros");
        ensure!(Interval::from_str(&t) == Ok(Interval(x)), "{t:?} reads as {:?}", Interval::from_str(&t));
        let j = serde_json::to_value(Interval(x)).map_err(|e| e.to_string())?;
        ensure!(serde_json::from_value::<Interval>(j.clone()).ok() == Some(Interval(x)), "serialised as {j}, which does not read back");
        ensure!(serde_json::from_value::<Interval>(json!(x)).ok() == Some(Interval(x)), "the number {x} does not deserialise to it");
        ensure!(serde_json::from_value::<Interval>(json!(t)).ok() == Some(Interval(x)), "the text {t:?} does not deserialise to it");
        Ok(gs.len() > 1)
    });
    for x in 0..1100 { one(c, x); }
    for u in UNITS { for k in [1u64, 2, 10, 59, 60, 100] { for d in [0u64, 1, 2] { one(c, u.1 * k + d); one(c, (u.1 * k).saturating_sub(d)); } } }
    for _ in 0..c.n(20_000) { if c.done() { return; } let x = interval_value(c); one(c, x); }
    for _ in 0..c.n(40_000) {
        if c.done() { return; }
        let s = interval_text(c);
        c.case(|| format!("Interval text {s:?}"), || {
            let (want, got) = (interval_of(&s), Interval::from_str(&s).ok().map(|i| i.0));
            ensure!(got == want, "reads as {got:?}, it spells {want:?}");
            let got = serde_json::from_value::<Interval>(json!(s)).ok().map(|i| i.0);
            ensure!(got == want, "deserialises to {got:?}, it spells {want:?}");
            Ok(want.is_some())
        });
    }
    let ms = months();
    let inst = |c: &mut Ctx, x: u64| c.case(|| format!("the text of Timestamp({x})"), || {
        let t = Timestamp(x).to_string();
        ensure!(instant_of(&t) == Some(x as i128 * 1_000_000), "{t:?} means {:?}", instant_of(&t));
        ensure!(Timestamp::from_str(&t) == Ok(Timestamp(x)), "{t:?} reads as {:?}", Timestamp::from_str(&t));
        let j = serde_json::to_value(Timestamp(x)).map_err(|e| e.to_string())?;
        for j in [j, json!(x), json!(t)] {
            ensure!(serde_json::from_value::<Timestamp>(j.clone()).ok() == Some(Timestamp(x)), "{j} does not deserialise to it");
        }
        Ok(x % 1000 != 0)
    });
    for _ in 0..c.n(10_000) {
        if c.done() { return; }
        let x = match c.u(0, 3) { 0 => { let k = c.u(1, ms.len() as u64 - 2) as usize; (ms[k] - 2 + c.u(0, 4) as i128) as u64 } 1 => c.u(0, 3000), 2 => c.u(0, 4_102_444_800_000), _ => c.u(0, end as u64 - 1) };
        inst(c, x);
    }
    for _ in 0..c.n(40_000) {
        if c.done() { return; }
        let s = instant_text(c);
        // leap seconds, lower case, blanks and signed years are left to the time crate
        if s.contains(":60") || s.starts_with(['+', '-']) { continue; }
        let ns = instant_of(&s);
        if ns.map_or(false, |n| n >= end * 1_000_000) { continue; }
        let want = ns.and_then(|n| if n < 0 { None } else { Some((n / 1_000_000) as u64) });
        c.case(|| format!("Timestamp text {s:?}"), || {
            let got = Timestamp::from_str(&s).ok().map(|i| i.0);
            ensure!(got == want, "reads as {got:?}, it means {want:?}");
            let got = serde_json::from_value::<Timestamp>(Value::String(s.clone())).ok().map(|i| i.0);
            ensure!(got == want, "deserialises to {got:?}, it means {want:?}");
            Ok(want.is_some())
        });
    }
    for v in [json!(null), json!(-1), json!(1.5), json!(true), json!([1]), json!({}), json!("")] {
        c.case(|| format!("deserialising {v}"), || {
            ensure!(serde_json::from_value::<Interval>(v.clone()).is_err(), "read as an interval");
            ensure!(serde_json::from_value::<Timestamp>(v.clone()).is_err(), "read as an instant");
            Ok(true)
        });
    }
}

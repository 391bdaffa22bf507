use crate::prim::*;
use monolith::compaction::{CompactType, Compactor, Decompactor};
use monolith::time_point::TimePoint;

fn same(a: &TimePoint, t: u64, v: u64) -> bool { (a.timestamp == t) & (a.value.to_bits() == v) }

/// Compacts `pts` point by point and checks that decompacting gives exactly them.
fn round(pts: &[(u64, u64)]) {
    let mut c = Compactor::new(CompactType::Gorilla);
    for &(t, v) in pts { c.compact(&TimePoint::new(t, f64::from_bits(v))) }
    let b = c.get_bytes_vec();
    expect(b, pts);
}
fn expect(b: Vec<u8>, pts: &[(u64, u64)]) {
    let mut d = match Decompactor::from(CompactType::Gorilla, b) { Ok(d) => d, Err(_) => { check(false, "gorilla-own-output-refused"); return } };
    let r = match d.decompact() { Ok(r) => r, Err(_) => { check(false, "gorilla-own-output-error"); return } };
    check(r.len() == pts.len(), "gorilla-count");
    for (i, &(t, v)) in pts.iter().enumerate() {
        check(r[i].timestamp == t, "gorilla-timestamp");
        check(r[i].value.to_bits() == v, "gorilla-value");
    }
    reach("round-trip");
}

/// A symbolic 64-bit word with exactly `l` leading and `t` trailing zero bits (l + t <= 63).
fn word(l: u32, t: u32) -> u64 {
    let w = 64 - l - t;
    if w == 1 { return 1u64 << t }
    let m = ((1u64 << (w - 1)) - 1) & !1;
    ((u64() & m) | 1 | (1u64 << (w - 1))) << t
}
/// A window (leading, trailing): all 2080 of them.
fn window() -> (u32, u32) {
    let l = choose(64) as u32;
    let t = choose(64 - l as usize) as u32;
    (l, t)
}
/// One window for each alignment of the bits that follow it, narrow and wide.
fn aligned() -> (u32, u32) { pick(&[(0, 63), (1, 61), (2, 59), (12, 48), (4, 55), (31, 27), (16, 41), (30, 26), (12, 0), (31, 0)]) }

/// Any timestamps whatever (ordered or not), at every bit alignment.
pub fn gor_time() {
    let k = choose(8) as u32;
    let v0 = 0x4037_0000_0000_0000u64;
    let v1 = v0 ^ (((1u64 << k) | 1) << (40 - k));
    let n = 3 + choose(3);
    let mut p = Vec::new();
    // any sequence at all is first value, first step and change of step: each is a free 64-bit word
    let (mut t, mut d) = (u64(), u64());
    for i in 0..n {
        if i > 0 { t = t.wrapping_add(d); d = d.wrapping_add(u64()) }
        p.push((t, if i == 0 { v0 } else { v1 }));
    }
    round(&p);
}
/// Any two values: every pattern of leading and trailing zeros of their xor, plus equal values.
pub fn gor_val2() {
    let (t0, v0) = (u64(), u64());
    let x = if boolean() { 0 } else { let (l, t) = window(); word(l, t) };
    round(&[(t0, v0), (t0.wrapping_add(15000), v0 ^ x)]);
}
/// Third value inside the second's window, or equal to it; every window.
pub fn gor_val3() {
    let (t0, v0) = (u64(), u64());
    let (l, t) = window();
    let x = word(l, t);
    let y = match choose(3) {
        0 => 0,
        1 => word(l, t),
        _ => { let w = 64 - l - t; if w < 3 { 1u64 << t } else { word(l + 1, t + 1) } }
    };
    let t1 = t0.wrapping_add(15000);
    round(&[(t0, v0), (t1, v0 ^ x), (t1.wrapping_add(15000), v0 ^ x ^ y)]);
}
/// Third value with any window after a second at each alignment.
pub fn gor_win3() {
    let (t0, v0) = (u64(), u64());
    let (l, t) = aligned();
    let x = word(l, t);
    let (l2, t2) = window();
    let y = word(l2, t2);
    let t1 = t0.wrapping_add(15000);
    round(&[(t0, v0), (t1, v0 ^ x), (t1.wrapping_add(15000), v0 ^ x ^ y)]);
}
/// Longer streams: windows kept, widened and narrowed, times in each class, through compact_vec.
pub fn gor_seq() {
    let n = 3 + choose(2);
    let (mut t, mut v, mut d) = (1_600_000_000_000u64, u64(), 60_000u64);
    let mut p = vec![(t, v)];
    for i in 1..n {
        if i > 1 {
            d = d.wrapping_add(pick(&[0u64, 5, -300i64 as u64, 70_000, 1 << 40]));
        }
        t = t.wrapping_add(d);
        v ^= match choose(4) { 0 => 0, 1 => word(12, 30), 2 => word(14, 32), _ => word(5, 40) };
        p.push((t, v));
    }
    let mut c = Compactor::new(CompactType::Gorilla);
    let b = c.compact_vec(p.iter().map(|&(t, v)| TimePoint::new(t, f64::from_bits(v))).collect());
    expect(b, &p);
}

/// Long series: many points, the value of one of them any, and its time moved.
pub fn gor_long() {
    let n = pick(&[20usize, 70, 300]);
    let kind = choose(3);
    let (k, y) = (pick(&[1usize, n / 2, n - 2]), pick(&[0u64, 1, 100, 4000]));
    let mut p: Vec<(u64, u64)> = vec![];
    let mut t = 1_600_000_000_000u64;
    for i in 0..n {
        t += match kind { 0 => 15_000, 1 => 1 + (i * i) as u64, _ => 10_000 + [0u64, 40, 90, 3000, 70_000][i % 5] };
        let v: f64 = match kind { 0 => 22.0, 1 => i as f64 * 0.1, _ => [1.0, -1.0, 3.5, 1e300, 0.0][i % 5] };
        p.push((t, v.to_bits()));
    }
    // its neighbours have one value, so that both differences are one word
    p[k + 1].1 = p[k - 1].1;
    p[k] = (p[k].0 + y, p[k - 1].1 ^ word(pick(&[0u32, 12, 40]), pick(&[0u32, 20])));
    round(&p);
}
pub fn none_long() {
    let n = pick(&[16usize, 257]);
    let k = pick(&[0usize, n / 2, n - 1]);
    let (t, v) = (u64(), u64());
    let p: Vec<(u64, u64)> = (0..n).map(|i| if i == k { (t, v) } else { (i as u64 * 1000, i as u64) }).collect();
    let mut c = Compactor::new(CompactType::None);
    let tps: Vec<TimePoint> = p.iter().map(|&(t, v)| TimePoint::new(t, f64::from_bits(v))).collect();
    let b = if boolean() { for tp in &tps { c.compact(tp) } c.get_bytes_vec() } else { c.compact_vec(tps) };
    match Decompactor::from(CompactType::None, b).and_then(|mut d| d.decompact()) {
        Ok(r) => { check(r.len() == n, "none-count"); for (r, &(t, v)) in r.iter().zip(&p) { check(same(r, t, v), "none-point") } reach("round-trip") }
        Err(_) => check(false, "none-own-output-error"),
    }
}

/// Points taken without compaction, one by one or as a list, come back bit for bit.
pub fn none_round() {
    let n = choose(5);
    let p: Vec<(u64, u64)> = (0..n).map(|_| (u64(), u64())).collect();
    let mut c = Compactor::new(CompactType::None);
    let tps: Vec<TimePoint> = p.iter().map(|&(t, v)| TimePoint::new(t, f64::from_bits(v))).collect();
    let b = match choose(3) {
        0 => { for tp in &tps { c.compact(tp) } c.get_bytes_vec() }
        1 => c.compact_vec(tps),
        _ => { if n > 0 { c.compact(&tps[0]); c.compact_vec(tps[1..].to_vec()) } else { c.compact_vec(vec![]) } }
    };
    let mut d = match Decompactor::from(CompactType::None, b) { Ok(d) => d, Err(_) => { check(false, "none-own-output-refused"); return } };
    let r = match d.decompact() { Ok(r) => r, Err(_) => { check(false, "none-own-output-error"); return } };
    check(r.len() == n, "none-count");
    for (r, &(t, v)) in r.iter().zip(&p) { check(same(r, t, v), "none-point") }
    reach("round-trip");
}
/// What one compactor made is refused by the other's decompactor.
pub fn tags() {
    let n = choose(3);
    let tps: Vec<TimePoint> = (0..n).map(|_| TimePoint::new(u64(), f64::from_bits(u64()))).collect();
    let g = boolean();
    let list = boolean();
    let mut c = Compactor::new(if g { CompactType::Gorilla } else { CompactType::None });
    let b = if list { c.compact_vec(tps) } else { for tp in &tps { c.compact(tp) } c.get_bytes_vec() };
    check(Decompactor::from(if g { CompactType::None } else { CompactType::Gorilla }, b).is_err(), "foreign-format-accepted");
    reach("refused");
}
/// Whatever bytes: an answer or an error, no panic, and never more points than the bits can hold.
fn junk(t: CompactType, n: usize) {
    let b = vecn(n);
    let none = match t { CompactType::None => true, _ => false };
    match Decompactor::from(t, b.clone()) {
        Ok(mut d) => {
            check(n > 0 && b[n - 1] == if none { 3 } else { 1 }, "unmarked-bytes-accepted");
            match d.decompact() {
                Ok(r) => {
                    if none { check(r.len() * 16 + 1 == n, "none-count") } else { check(r.len() <= 8 * n, "junk-count") }
                    if none { for (i, p) in r.iter().enumerate() { check(p.timestamp.to_be_bytes()[..] == b[16 * i..16 * i + 8] && p.value.to_bits().to_be_bytes()[..] == b[16 * i + 8..16 * i + 16], "none-point") } }
                    reach("junk-read");
                }
                Err(_) => check(!none || (n - 1) % 16 != 0, "whole-records-refused"),
            }
        }
        Err(_) => { if n > 0 { check(b[n - 1] != if none { 3 } else { 1 }, "marked-bytes-refused") } reach("junk-refused") }
    }
}
pub fn none_junk() { junk(CompactType::None, choose(36)) }
pub fn gor_junk_short() { junk(CompactType::Gorilla, choose(20)) }
/// One point in full, then arbitrary bits of the second.
pub fn gor_junk2() { let n = choose(4); tail(n, &[0, 0, 0, 0, 0, 0, 3, 232, 63, 240, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]) }
/// Two points, then arbitrary bits from the third on.
fn tail(n: usize, head: &[u8]) {
    let mut b = head.to_vec();
    b.extend(vecn(n));
    b.push(pick(&[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 255])); // spare bits in the last byte
    b.push(1);
    match Decompactor::from(CompactType::Gorilla, b) {
        Ok(mut d) => match d.decompact() { Ok(r) => { check(r.len() <= 2 + 8 * n + 8, "junk-count"); reach("junk-read") } Err(_) => {} },
        Err(_) => check(false, "marked-bytes-refused"),
    }
}
pub fn gor_junk_tail() {
    let mut head = vec![0, 0, 0, 0, 0, 0, 3, 232, 63, 240, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1];
    // the second value, with a window of its own; it ends with its byte
    head.extend(&[0b1101_0010, 0b0001_1011, 0b0110_1100]);
    tail(2, &head);
}

//! Equality and order of labels and points, names of chunk directories.
use crate::prim::*;
use monolith::label::{Label, Labels};
use monolith::time_point::TimePoint;
use monolith::utils::{decode_chunk_dir, encode_chunk_dir, is_duration_overlap};
use std::cmp::Ordering;

fn lab() -> (String, String) { (ascii(choose(3)), ascii(choose(3))) }
fn mk(l: &(String, String)) -> Label { Label::new(l.0.clone(), l.1.clone()) }
/// Labels are equal when name and value are, and ordered by name.
pub fn label_laws() {
    let (a, b) = (lab(), lab());
    let (x, y) = (mk(&a), mk(&b));
    let same = a == b;
    check((x == y) == same, "label-equality");
    check((y == x) == same, "label-equality");
    check(x == x.clone(), "label-equality");
    check(*x.key() == a.0 && *x.value() == a.1, "label-content");
    check((x.cmp(&y) == Ordering::Equal) == (a.0 == b.0), "label-order");
    check(x.cmp(&y) == y.cmp(&x).reverse(), "label-order");
    check(x.cmp(&y) == a.0.cmp(&b.0), "label-order");
    check(x.partial_cmp(&y) == Some(x.cmp(&y)), "label-order");
    reach(if same { "equal" } else { "different" });
}
/// Label sets are equal when they hold the same labels in the same order; equal sets have equal hashes.
pub fn labels_laws() {
    let (n, m) = (choose(3), choose(3));
    let a: Vec<(String, String)> = (0..n).map(|_| (ascii(1), ascii(1))).collect();
    let b: Vec<(String, String)> = (0..m).map(|_| (ascii(1), ascii(1))).collect();
    let (x, y) = (Labels::from_vec(a.iter().map(mk).collect()), Labels::from_vec(b.iter().map(mk).collect()));
    let same = a == b;
    check((x == y) == same, "labels-equality");
    check((y == x) == same, "labels-equality");
    check(x == x.clone(), "labels-equality");
    check(x.len() == n, "labels-content");
    let mut z = Labels::new();
    for l in &a { z.add(mk(l)) }
    check(z == x, "labels-content");
    check(z.get_hash() == x.get_hash(), "labels-hash");
    reach(if same { "equal" } else { "different" });
}
/// Sorting keeps every label and puts them in order of their names.
pub fn labels_sort() {
    let n = choose(4);
    let a: Vec<(String, String)> = (0..n).map(|_| (ascii(1), ascii(1))).collect();
    let mut x = Labels::from_vec(a.iter().map(mk).collect());
    x.sort();
    check(x.len() == n, "sort-count");
    for w in x.vec().windows(2) { check(w[0].key() <= w[1].key(), "sort-order") }
    for l in &a { check(x.vec().iter().filter(|y| *y.key() == l.0 && *y.value() == l.1).count() == a.iter().filter(|y| *y == l).count(), "sort-content") }
    reach("sorted");
}
fn finite() -> f64 { let b = u64(); assume((b >> 52) & 0x7ff != 0x7ff); f64::from_bits(b) }
/// Points are equal when their times are and their values are (nearly); they are ordered by time.
pub fn point_laws() {
    let (t, u) = (u64(), u64());
    let (x, y) = (TimePoint::new(t, finite()), TimePoint::new(u, finite()));
    check(x == x.clone(), "point-equality");
    let eq = x == y;
    check(eq == (y == x), "point-equality");
    check(!eq || t == u, "point-equality");
    if x.value == y.value { check(eq == (t == u), "point-equality") }
    check(x.cmp(&y) == t.cmp(&u), "point-order");
    check(x.partial_cmp(&y) == Some(t.cmp(&u)), "point-order");
    reach(if eq { "equal" } else { "different" });
}
/// Points whose values are apart are not equal, in either order.
pub fn point_apart() {
    let t = u64();
    // values of moderate size, so that their difference is not rounded away
    let (a, b) = (u16() as f64, u16() as f64);
    let (x, y) = (TimePoint::new(t, a), TimePoint::new(t, b));
    check((x == y) == (a == b), "point-equality");
    check((TimePoint::new(t, -a) == y) == (-a == b), "point-equality");
    reach("apart");
}
/// Ranges overlap when some time is in both.
pub fn overlap() {
    let (a, b, c, d) = (u64(), u64(), u64(), u64());
    assume(a <= b && c <= d);
    let both = if a > c { a } else { c };
    check(is_duration_overlap(a, b, c, d) == (both <= b && both <= d), "overlap");
    check(is_duration_overlap(c, d, a, b) == (both <= b && both <= d), "overlap");
    reach("overlap");
}
fn dir_of(s: u64, e: u64) {
    let name = encode_chunk_dir(s, e);
    check(!name.is_empty() && name.bytes().all(|c| c.is_ascii_alphanumeric()), "directory-name");
    match decode_chunk_dir(name) { Ok(r) => { check(r.0 == s, "directory-start"); check(r.1 == e, "directory-end"); reach("directory") } Err(_) => check(false, "directory-unread") }
}
/// Two digits of start and end are any, the rest of a pattern.
pub fn dir_digits() {
    let (base, k) = (pick(&[(0u64, 0u64), (u64::MAX, u64::MAX), (0x0123_4567_89ab_cdef, 0xfedc_ba98_7654_3210), (1_600_000_000_000, 1_600_012_000_000)]), choose(16));
    let m = 0xfu64 << (4 * k);
    let (x, y) = ((u8() & 15) as u64, (u8() & 15) as u64);
    dir_of(base.0 & !m | (x << (4 * k)), base.1 & !m | (y << (4 * k)));
}
/// Different ranges never share a directory.
pub fn dir_distinct() {
    let (a, b, c, d) = (u8() as u64, u8() as u64, u8() as u64, u8() as u64);
    let k = choose(4) * 16;
    let (x, y) = (encode_chunk_dir(a << k, b << k), encode_chunk_dir(c << k, d << k));
    check((x == y) == (a == c && b == d), "directory-shared");
    reach(if x == y { "same" } else { "other" });
}
/// A name that is none is refused, not misread, whatever its characters.
pub fn dir_junk() {
    let n = choose(4);
    let s = ascii(n);
    let hex = n > 0 && s.bytes().all(|c| (c >= b'0' && c <= b'9') || (c >= b'a' && c <= b'f'));
    let r = decode_chunk_dir(s);
    if hex { check(r.is_ok(), "directory-unread") }
    if let Ok((s, _)) = r { check(s == 0, "directory-start") }
    reach(if hex { "hex" } else { "junk" });
}

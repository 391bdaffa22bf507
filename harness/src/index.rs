//! Indexers: exact label-set lookup, label queries, and the labels read back, in both backends.
use crate::prim::*;
use monolith::indexer::{Indexer, SledIndexer, TiKvIndexer};
use monolith::label::{Label, Labels};
use monolith::test_utils::DummyTiKvBackend;

pub fn sled_at(name: &str) -> SledIndexer { SledIndexer::new(&dir(name)).unwrap() }
pub fn tikv_on(b: &DummyTiKvBackend, id: u8) -> TiKvIndexer { TiKvIndexer::verif_new(Box::new(b.clone()), vec![1; 16], vec![id; 16]) }
pub fn tikv() -> TiKvIndexer { tikv_on(&DummyTiKvBackend::new(), 7) }

pub type Set = Vec<(String, String)>;
pub fn labels(s: &Set) -> Labels { Labels::from_vec(s.iter().map(|(k, v)| Label::new(k.clone(), v.clone())).collect()) }
fn has(s: &Set, l: &(String, String)) -> bool { s.iter().any(|x| x == l) }
pub fn same(a: &Set, b: &Set) -> bool { a.len() == b.len() && a.iter().all(|x| has(b, x)) }
pub fn set_of(l: &Labels) -> Set { l.vec().iter().map(|x| (x.key().clone(), x.value().clone())).collect() }
/// `n` labels with different names, names of `k` and values of `v` symbolic characters.
pub fn set(n: usize, k: usize, v: usize) -> Set {
    let mut s: Set = Vec::new();
    for _ in 0..n {
        let l = (ascii(k), ascii(v));
        for o in &s { assume(o.0 != l.0) }
        s.push(l);
    }
    s
}
fn rev(s: &Set) -> Set { s.iter().rev().cloned().collect() }

fn exact<I: Indexer>(ix: I, a: Set, b: Set) {
    check(matches!(ix.get_series_id_by_labels(labels(&a)), Ok(None)), "exact-lookup-before");
    check(ix.create_index(labels(&a), 1).is_ok(), "create-index-refused");
    check(matches!(ix.get_series_id_by_labels(labels(&a)), Ok(Some(1))), "exact-lookup-own");
    check(matches!(ix.get_series_id_by_labels(labels(&rev(&a))), Ok(Some(1))), "exact-lookup-order");
    if a.len() > 2 { let mut r = a.clone(); r.swap(0, 1); check(matches!(ix.get_series_id_by_labels(labels(&r)), Ok(Some(1))), "exact-lookup-order") }
    if same(&a, &b) { return }
    check(matches!(ix.get_series_id_by_labels(labels(&b)), Ok(None)), "exact-lookup-other");
    check(ix.create_index(labels(&b), 2).is_ok(), "create-index-refused");
    check(matches!(ix.get_series_id_by_labels(labels(&a)), Ok(Some(1))), "exact-lookup-first");
    check(matches!(ix.get_series_id_by_labels(labels(&b)), Ok(Some(2))), "exact-lookup-second");
    reach("two-sets");
}
/// Sets of up to six labels and one long text: what one label more, less or other makes is another set.
fn exact_wide<I: Indexer>(ix: I) {
    let n = 3 + choose(4);
    let mut a: Set = (0..n).map(|i| (format!("n{}", i), format!("v{}", i))).collect();
    let k = pick(&[0usize, 1, n - 1]);
    let c = plain(1);
    let long = "x".repeat(pick(&[0usize, 40, 300]));
    a[k].1 = format!("{}{}", long, c);
    let mut b = a.clone();
    match choose(5) {
        0 => { b.remove(pick(&[0usize, n - 1])); }
        1 => b.push(("z".to_string(), plain(1))),
        2 => { let j = pick(&[0usize, n - 1]); b[j].1 = format!("{}{}", b[j].1, plain(1)) }
        3 => b[k].1 = format!("{}{}", long, plain(1)),
        _ => { let j = pick(&[0usize, n - 1]); b[j].0 = format!("m{}", plain(1)) }
    }
    exact(ix, a, b)
}
pub fn sled_exact_wide() { exact_wide(sled_at("ix")) }
pub fn tikv_exact_wide() { exact_wide(tikv()) }
/// Shapes of two label sets: (labels, name length, value length) twice.
fn shape() -> (Set, Set) {
    match choose(5) {
        0 => (set(1, 1, 1), set(1, 1, 1)),
        1 => (set(1, 1, 1), set(1, 2, 0)),
        2 => (set(1, 1, 1), set(1, 2, 1)),
        3 => (set(2, 1, 0), set(1, 1, 2)),
        _ => (set(1, 1, 0), set(2, 1, 0)),
    }
}
pub fn sled_exact() { let (a, b) = shape(); exact(sled_at("ix"), a, b) }
pub fn tikv_exact() { let (a, b) = shape(); exact(tikv(), a, b) }

/// A series is found by each of its labels, and its labels come back as they were given.
fn readback<I: Indexer>(ix: I, a: Set) {
    let id = pick(&[1u64, 10, u64::MAX]);
    check(ix.create_index(labels(&a), id).is_ok(), "create-index-refused");
    for l in &a {
        match ix.get_series_metadata_contains_labels(labels(&vec![l.clone()])) {
            Ok(v) => {
                check(v.len() == 1, "readback-found");
                if v.len() == 1 {
                    check(v[0].0 == id, "readback-id");
                    check(same(&set_of(&v[0].1), &a), "readback-labels");
                }
            }
            Err(_) => check(false, "readback-error"),
        }
    }
    reach("readback");
}
/// Many labels, long texts, one character of one of them any.
fn wide() -> Set {
    let n = pick(&[3usize, 8]);
    let mut a: Set = (0..n).map(|i| (format!("n{}", i), format!("v{}", i))).collect();
    let (k, m) = (pick(&[0usize, n - 1]), pick(&[0usize, 30, 257]));
    let at = pick(&[0usize, m]);
    let t = format!("{}{}{}", "x".repeat(at), ascii(1), "y".repeat(m - at));
    if boolean() { a[k].0 = format!("k{}", t) } else { a[k].1 = t }
    a
}
pub fn sled_readback_wide() { readback(sled_at("ix"), wide()) }
pub fn tikv_readback_wide() { readback(tikv(), wide()) }
fn shape1() -> Set {
    match choose(5) { 0 => set(1, 1, 3), 1 => set(1, 3, 1), 2 => set(2, 1, 1), 3 => set(1, 2, 2), _ => set(1, 1, 0) }
}
pub fn sled_readback() { let a = shape1(); readback(sled_at("ix"), a) }
pub fn tikv_readback() { let a = shape1(); readback(tikv(), a) }
/// Names and values that are not ASCII, up to the end of Unicode.
pub fn sled_unicode() {
    let c = u32();
    assume(c < 0x11_0000);
    assume(c < 0xd800 || c >= 0xe000);
    let s: String = std::iter::once(unsafe { char::from_u32_unchecked(c) }).collect();
    let a: Set = vec![("k".to_string(), s.clone()), (format!("n{}", s), "x".to_string())];
    readback(sled_at("ix"), a)
}

/// Series with symbolic values for two names; the query names one or both of them.
fn contains<I: Indexer>(ix: I, n: usize) {
    let names = ["a", "b"];
    let mut all: Vec<Set> = Vec::new();
    // (numbers whose digits begin or end alike, in the order they are given out)
    let ids = pick(&[[1u64, 2, 3], [2, 12, 112], [1, 10, 100]]);
    for i in 0..n {
        let mut s: Set = vec![(names[0].to_string(), plain(1))];
        if i != 1 || choose(2) == 0 { s.push((names[1].to_string(), plain(1))) }
        for o in &all { if same(o, &s) { return } }
        check(ix.create_index(labels(&s), ids[i]).is_ok(), "create-index-refused");
        all.push(s);
    }
    let q: Set = match choose(4) {
        0 => vec![("a".to_string(), plain(1))],
        1 => vec![("b".to_string(), plain(1))],
        2 => vec![("b".to_string(), plain(1)), ("a".to_string(), plain(1))],
        _ => vec![("a".to_string(), plain(1)), ("c".to_string(), plain(1))],
    };
    let want: Vec<u64> = (0..n).filter(|&i| q.iter().all(|l| has(&all[i], l))).map(|i| ids[i]).collect();
    match ix.get_series_id_contains_labels(labels(&q)) {
        Ok(mut got) => {
            got.sort();
            check(got == want, "contains-ids");
            reach(if want.is_empty() { "contains-none" } else { "contains-some" });
        }
        Err(_) => check(false, "contains-error"),
    }
    match ix.get_series_metadata_contains_labels(labels(&q)) {
        Ok(got) => {
            check(got.len() == want.len(), "contains-metadata-count");
            for (id, l) in got {
                check(want.contains(&id), "contains-metadata-id");
                if let Some(i) = ids[..n].iter().position(|x| *x == id) { check(same(&set_of(&l), &all[i]), "contains-metadata-labels") }
            }
        }
        Err(_) => check(false, "contains-error"),
    }
}
pub fn sled_contains() { contains(sled_at("ix"), 3) }
pub fn tikv_contains() { contains(tikv(), 2) }
/// Many series that share labels, one of them with any value.
fn crowd<I: Indexer>(ix: I, n: usize, step: u64) {
    let k = pick(&[0usize, n / 2, n - 1]);
    let mut all: Vec<Set> = vec![];
    for i in 0..n {
        let mut s: Set = vec![("j".to_string(), format!("{}", i % 3)), ("i".to_string(), format!("{}", i)), ("all".to_string(), String::new())];
        if i == k { s[0].1 = plain(1) }
        if i % 2 == 1 { s.reverse() }
        check(ix.create_index(labels(&s), 1 + i as u64 * step).is_ok(), "create-index-refused");
        all.push(s);
    }
    let q: Set = match choose(4) {
        0 => vec![("j".to_string(), plain(1))],
        1 => vec![("all".to_string(), String::new()), ("j".to_string(), "1".to_string())],
        2 => vec![("all".to_string(), String::new())],
        _ => vec![("i".to_string(), format!("{}", n - 1)), ("all".to_string(), String::new())],
    };
    let want: Vec<u64> = (0..n).filter(|&i| q.iter().all(|l| has(&all[i], l))).map(|i| 1 + i as u64 * step).collect();
    match ix.get_series_id_contains_labels(labels(&q)) { Ok(mut got) => { got.sort(); check(got == want, "contains-ids") } Err(_) => check(false, "contains-error") }
    match ix.get_series_metadata_contains_labels(labels(&q)) {
        Ok(got) => {
            check(got.len() == want.len(), "contains-metadata-count");
            for (id, l) in got { check(want.contains(&id), "contains-metadata-id"); let i = ((id - 1) / step) as usize; if i < n { check(same(&set_of(&l), &all[i]), "contains-metadata-labels") } }
        }
        Err(_) => check(false, "contains-error"),
    }
    reach("crowd");
}
pub fn sled_crowd() { crowd(sled_at("ix"), 13, pick(&[1u64, 10, 1 << 40])) }
pub fn tikv_crowd() { crowd(tikv(), 13, pick(&[1u64, 256, 1 << 40])) }

/// Queries of one to four labels over series with four.
fn contains_many<I: Indexer>(ix: I) {
    let names = ["a", "b", "c", "d"];
    let v = plain(4);
    let w = plain(4);
    let x: Set = (0..4).map(|i| (names[i].to_string(), v[i..i + 1].to_string())).collect();
    let y: Set = (0..4).map(|i| (names[i].to_string(), w[i..i + 1].to_string())).collect();
    if same(&x, &y) { return }
    check(ix.create_index(labels(&x), 1).is_ok(), "create-index-refused");
    check(ix.create_index(labels(&y), 2).is_ok(), "create-index-refused");
    let k = 1 + choose(4);
    let q: Set = x[..k].to_vec();
    let mut want = vec![1u64];
    if q.iter().all(|l| has(&y, l)) { want.push(2) }
    match ix.get_series_id_contains_labels(labels(&q)) {
        Ok(mut got) => { got.sort(); check(got == want, "contains-ids"); reach(if want.len() == 2 { "many-both" } else { "many-one" }) }
        Err(_) => check(false, "contains-error"),
    }
}
pub fn sled_contains_many() { contains_many(sled_at("ix")) }
pub fn tikv_contains_many() { contains_many(tikv()) }

/// Two indexes on one shared backend keep to themselves.
pub fn tikv_shared() {
    let b = DummyTiKvBackend::new();
    let (x, y) = (tikv_on(&b, 1), tikv_on(&b, 2));
    let a = set(1, 1, 1);
    check(x.create_index(labels(&a), 1).is_ok(), "create-index-refused");
    check(matches!(y.get_series_id_by_labels(labels(&a)), Ok(None)), "shared-exact");
    check(matches!(y.get_series_id_contains_labels(labels(&a)), Ok(ref v) if v.is_empty()), "shared-contains");
    check(y.create_index(labels(&a), 2).is_ok(), "create-index-refused");
    check(matches!(x.get_series_id_by_labels(labels(&a)), Ok(Some(1))), "shared-exact");
    check(matches!(x.get_series_id_contains_labels(labels(&a)), Ok(ref v) if *v == vec![1]), "shared-contains");
    check(matches!(y.get_series_id_contains_labels(labels(&a)), Ok(ref v) if *v == vec![2]), "shared-contains");
    reach("shared");
}
/// What an indexer knew before it was closed it knows when opened again.
pub fn sled_reopen() {
    use monolith::indexer::SledIndexerBuilder;
    use monolith::Builder;
    let a = set(2, 1, 1);
    { let ix = sled_at("ix"); check(ix.create_index(labels(&a), 6).is_ok(), "create-index-refused"); }
    let ix = match SledIndexerBuilder::new().read_from_chunk(&dir("ix"), None) { Ok(Some(i)) => i, _ => { check(false, "reopen-failed"); return } };
    check(matches!(ix.get_series_id_by_labels(labels(&a)), Ok(Some(6))), "reopen-exact");
    match ix.get_series_metadata_contains_labels(labels(&vec![a[choose(2)].clone()])) {
        Ok(v) => check(v.len() == 1 && v[0].0 == 6 && same(&set_of(&v[0].1), &a), "reopen-metadata"),
        Err(_) => check(false, "reopen-error"),
    }
    reach("reopened");
}

/// Ids that are in every list, for any number of ascending lists.
fn lists(k: usize, max: usize) -> Vec<Vec<u64>> {
    (0..k).map(|_| {
        let n = choose(max + 1);
        let mut v: Vec<u64> = Vec::new();
        for i in 0..n { let x = u64(); if i > 0 { assume(x > v[i - 1]) } v.push(x) }
        v
    }).collect()
}
fn intersect(ls: Vec<Vec<u64>>) {
    let want: Vec<u64> = if ls.is_empty() { vec![] } else { ls[0].iter().cloned().filter(|x| ls[1..].iter().all(|l| l.contains(x))).collect() };
    match monolith::utils::intersect_time_series_id_vec(ls) {
        Ok(got) => { check(got == want, "intersection"); if want.len() > 0 { reach("common-ids") } }
        Err(_) => check(false, "intersection-error"),
    }
}
pub fn intersect2() { let k = choose(3); let ls = lists(k, 3); intersect(ls) }
/// Long lists: one id or two, any, against a list of up to a dozen.
pub fn intersect_long() {
    let n = pick(&[5usize, 8, 12]);
    let even: Vec<u64> = (0..n).map(|i| 10 + 3 * i as u64).collect();
    let few: Vec<u64> = { let (x, y) = (u8() as u64, u8() as u64); assume(x < y); if boolean() { vec![x] } else { vec![x, y] } };
    let ls = match choose(4) {
        0 => vec![few, even],
        1 => vec![even, few],
        2 => vec![even.iter().map(|x| x + 3).collect(), even, few],
        _ => { let mut v = even.clone(); let k = pick(&[0usize, 2, n - 1]); v[k] = u64(); for w in v.windows(2) { assume(w[0] < w[1]) } vec![v, even] }
    };
    intersect(ls)
}
/// Any six ids in order against one.
pub fn intersect_six() { let six = ordered(6); let one = vec![u64()]; intersect(if boolean() { vec![six, one] } else { vec![one, six] }) }
fn ordered(n: usize) -> Vec<u64> { let v: Vec<u64> = (0..n).map(|_| u64()).collect(); for w in v.windows(2) { assume(w[0] < w[1]) } v }
/// As many lists as a query might have labels.
pub fn intersect_wide() {
    let k = pick(&[8usize, 9, 16, 17]);
    let x = u64();
    assume(x > 5 && x < 100);
    let odd = choose(k);
    let ls: Vec<Vec<u64>> = (0..k).map(|i| if i == odd { vec![5, u8() as u64 + 6] } else { vec![2 + (i % 3) as u64, 5, x] }).collect();
    intersect(ls)
}
pub fn intersect3() { intersect(lists(3, 2)) }
pub fn intersect_many() {
    // one id each, or one shared: 4 to 7 lists, through the threads
    let k = 4 + choose(4);
    let ls: Vec<Vec<u64>> = (0..k).map(|_| vec![u64()]).collect();
    intersect(ls)
}
pub fn intersect4() {
    let ls: Vec<Vec<u64>> = (0..4).map(|_| { let (x, y) = (u8() as u64, u8() as u64); assume(x < y); vec![x, y] }).collect();
    intersect(ls)
}

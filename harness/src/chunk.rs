//! A chunk: what it acknowledges can be read back, within its range, series by series.
use crate::index::{self, labels, same, set_of, Set};
use crate::prim::*;
use crate::store;
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::Indexer;
use monolith::storage::Storage;
use monolith::test_utils::DummyTiKvBackend;
use monolith::time_point::TimePoint;
use monolith::time_series::TimeSeries;
use monolith::MonolithErr;

pub fn opts(s: u64, e: u64) -> ChunkOpts { ChunkOpts { start_time: Some(s), end_time: Some(e), identifier: vec![1; 16] } }
pub type Pt = (u64, u64);
pub fn tp(p: Pt) -> TimePoint { TimePoint::new(p.0, f64::from_bits(p.1)) }
pub fn l(k: &str, v: &str) -> (String, String) { (k.to_string(), v.to_string()) }
pub fn points(ps: &[TimePoint]) -> Vec<Pt> { ps.iter().map(|p| (p.timestamp, p.value.to_bits())).collect() }

/// The series of an answer must be exactly `want`, each once, points in order.
pub fn series(got: Vec<(Set, Vec<Pt>)>, want: &[(Set, Vec<Pt>)], id: &str) {
    let want: Vec<&(Set, Vec<Pt>)> = want.iter().filter(|w| !w.1.is_empty()).collect();
    check(got.len() == want.len(), id);
    for (s, ps) in &got {
        match want.iter().find(|w| same(&w.0, s)) {
            None => check(false, id),
            Some(w) => {
                check(ps.len() == w.1.len(), id);
                for (a, b) in ps.iter().zip(&w.1) { check(a.0 == b.0, id); check(a.1 == b.1, id) }
            }
        }
    }
    for (i, a) in got.iter().enumerate() { for b in &got[..i] { check(!same(&a.0, &b.0), id) } }
}
fn flat(v: Vec<TimeSeries>) -> Vec<(Set, Vec<Pt>)> { v.iter().map(|t| (set_of(t.meta_data()), points(t.time_points()))).collect() }
/// Answer of a chunk query; out of range counts as nothing.
pub fn ask<S: Storage, I: Indexer>(c: &Chunk<S, I>, q: &Set, s: u64, e: u64) -> Option<Vec<(Set, Vec<Pt>)>> {
    match c.query(labels(q), s, e) {
        Ok(v) => {
            for (i, a) in v.iter().enumerate() { for b in &v[..i] { check(a.id() != b.id(), "series-share-id") } }
            Some(flat(v))
        }
        Err(MonolithErr::OutOfRangeErr(_, _)) => Some(vec![]),
        Err(_) => None,
    }
}
pub fn matches(s: &Set, q: &Set) -> bool { q.iter().all(|x| s.iter().any(|y| x == y)) }
pub fn between(ps: &[Pt], s: u64, e: u64) -> Vec<Pt> { ps.iter().cloned().filter(|p| s <= p.0 && p.0 <= e).collect() }
/// Where a point of time `t` goes among points in order.
pub fn put(ps: &mut Vec<Pt>, p: Pt) { let at = ps.iter().position(|x| x.0 > p.0).unwrap_or(ps.len()); ps.insert(at, p) }

/// One series, symbolic chunk range, times and values.
fn acked<S: Storage, I: Indexer>(st: S, ix: I, any_order: bool, n: usize) {
    let (s, e) = (u64(), u64());
    assume(s <= e && s < 1 << 62);
    let c = Chunk::new(st, ix, &opts(s, e));
    let set = vec![l("job", "a"), l("host", "b")];
    let back = vec![l("host", "b"), l("job", "a")];
    let mut all: Vec<Pt> = Vec::new();
    for i in 0..n {
        let p = (u64(), u64());
        let inside = s <= p.0 && p.0 <= e;
        let newer = all.last().map_or(true, |x| x.0 < p.0);
        match c.insert(labels(if i % 2 == 0 { &set } else { &back }), tp(p)) {
            Ok(()) => { check(inside, "out-of-range-acknowledged"); if !any_order { check(newer, "stale-acknowledged") } put(&mut all, p) }
            Err(_) => { check(!inside || (!any_order && !newer), "in-range-refused"); reach("refused") }
        }
    }
    let (qs, qe) = (u64(), u64());
    let q = pick(&[0usize, 1]);
    match ask(&c, &vec![set[q].clone()], qs, qe) {
        Some(got) => { if got.len() > 0 { reach("chunk-read") } series(got, &[(set, between(&all, qs, qe))], "acknowledged-read") }
        None => check(false, "query-error"),
    }
}
pub fn sled_acked() { acked(store::sled_at("st"), index::sled_at("ix"), true, 3) }
pub fn tikv_acked() { acked(store::tikv(), index::tikv(), false, 3) }

/// Several series in one chunk, each written in turn: none shows in another, whatever the ranges.
fn several<S: Storage, I: Indexer>(st: S, ix: I, n: usize) {
    let c = Chunk::new(st, ix, &opts(100, 1_000_000));
    let sets: Vec<Set> = vec![vec![l("job", "a"), l("host", "x")], vec![l("job", "a")], vec![l("host", "x"), l("job", "b")]];
    let mut all: Vec<(Set, Vec<Pt>)> = sets.iter().map(|s| (s.clone(), vec![])).collect();
    for i in 0..n {
        let k = if i < 2 { i } else { choose(3) };
        let p = (u32() as u64, u64());
        assume(p.0 >= 100 && p.0 <= 1_000_000);
        if let Some(x) = all[k].1.last() { assume(x.0 < p.0) }
        check(c.insert(labels(&sets[k]), tp(p)).is_ok(), "in-range-refused");
        all[k].1.push(p);
    }
    let q = match choose(5) { 0 => vec![l("job", "a")], 1 => vec![l("host", "x")], 2 => vec![l("host", "x"), l("job", "a")], 3 => vec![l("job", "c")], _ => vec![l("job", "b")] };
    let (qs, qe) = (u64(), u64());
    let want: Vec<(Set, Vec<Pt>)> = all.iter().filter(|s| matches(&s.0, &q)).map(|s| (s.0.clone(), between(&s.1, qs, qe))).collect();
    match ask(&c, &q, qs, qe) {
        Some(got) => { if got.len() > 1 { reach("two-series") } series(got, &want, "series-read") }
        None => check(false, "query-error"),
    }
}
pub fn sled_several() { several(store::sled_at("st"), index::sled_at("ix"), 4) }
pub fn tikv_several() { several(store::tikv(), index::tikv(), 4) }
/// Storage in one backend, index in the other, as the server allows.
pub fn mixed_several() {
    if boolean() { several(store::sled_at("st"), index::tikv(), 2) } else { several(store::tikv(), index::sled_at("ix"), 2) }
}
/// Many series with a label in common, points written in turn.
fn crowd<S: Storage, I: Indexer>(st: S, ix: I, n: usize) {
    let c = Chunk::new(st, ix, &opts(100, 1_000_000));
    let sets: Vec<Set> = (0..n).map(|i| vec![l("job", if i % 4 == 3 { "b" } else { "a" }), ("host".to_string(), format!("h{}", i))]).collect();
    let mut all: Vec<(Set, Vec<Pt>)> = sets.iter().map(|s| (s.clone(), vec![])).collect();
    let k = pick(&[0usize, n / 2, n - 1]);
    let v = u64();
    for r in 0..2u64 { for i in 0..n {
        if r == 1 && i % 3 == 2 { continue }
        let p = (200 + r * 1000 + i as u64, if i == k { v } else { r });
        check(c.insert(labels(&sets[i]), tp(p)).is_ok(), "in-range-refused");
        all[i].1.push(p);
    } }
    let (qs, qe) = if boolean() { (u64(), 5000) } else { (100, u64()) };
    let q = match choose(3) { 0 => vec![l("job", "a")], 1 => vec![l("job", "b")], _ => vec![l("job", "a"), l("host", "h1")] };
    let want: Vec<(Set, Vec<Pt>)> = all.iter().filter(|s| matches(&s.0, &q)).map(|s| (s.0.clone(), between(&s.1, qs, qe))).collect();
    match ask(&c, &q, qs, qe) { Some(got) => { if got.len() > 1 { reach("two-series") } series(got, &want, "series-read") } None => check(false, "query-error") }
}
pub fn sled_crowd() { crowd(store::sled_at("st"), index::sled_at("ix"), 9) }
pub fn tikv_crowd() { crowd(store::tikv(), index::tikv(), 9) }
/// Two chunks on one shared backend keep to themselves.
pub fn tikv_two_chunks() {
    let b = DummyTiKvBackend::new();
    let x = Chunk::new(store::tikv_on(&b, 1), index::tikv_on(&b, 2), &opts(0, 1000));
    let y = Chunk::new(store::tikv_on(&b, 3), index::tikv_on(&b, 4), &opts(1001, 2000));
    let set = vec![l("job", "a")];
    let (p, q) = ((u16() as u64, u64()), (u16() as u64, u64()));
    assume(p.0 <= 1000 && q.0 > 1000 && q.0 <= 2000);
    check(x.insert(labels(&set), tp(p)).is_ok(), "in-range-refused");
    check(matches!(ask(&y, &set, 0, 5000), Some(ref v) if v.is_empty()), "other-chunk");
    check(y.insert(labels(&set), tp(q)).is_ok(), "in-range-refused");
    match (ask(&x, &set, 0, 5000), ask(&y, &set, 0, 5000)) {
        (Some(a), Some(b)) => { series(a, &[(set.clone(), vec![p])], "other-chunk"); series(b, &[(set, vec![q])], "other-chunk"); reach("two-chunks") }
        _ => check(false, "query-error"),
    }
}

//! Size: what holds of a few holds of hundreds.  The contents are fixed but for one value and the questions asked.
use crate::chunk::{self, between, l, matches, opts, put, series, tp, Pt};
use crate::db::{expect, last, on_kv, on_sled, ranges, LONG};
use crate::index::{self, labels, same, set_of, Set};
use crate::prim::*;
use crate::store;
use monolith::chunk::Chunk;
use monolith::indexer::Indexer;
use monolith::storage::Storage;
use monolith::MonolithErr;

const N: usize = 300;

fn read<S: Storage>(st: &S, id: u64, want: &[Pt], s: u64, e: u64) {
    let w = between(want, s, e);
    match st.read_time_series(id, s, e) {
        Ok(v) => { check(chunk::points(&v) == w, "range-read"); reach("long-read") }
        Err(MonolithErr::NotFoundErr) | Err(MonolithErr::OutOfRangeErr(_, _)) => check(w.is_empty(), "range-read-refused"),
        Err(_) => check(false, "range-read-error"),
    }
}
/// Hundreds of points in one series, the last of them late by some places or as late as the first.
fn long<S: Storage>(st: S, any_order: bool) {
    let v = u64();
    let mut all: Vec<Pt> = vec![];
    for i in 0..N as u64 {
        let p = (1000 + 10 * i, i);
        check(st.write_time_point(4, p.0, f64::from_bits(p.1)).is_ok(), "ordered-write-refused");
        all.push(p);
    }
    // later than all; or later than all but so many; or of the time of another
    let back = pick(&[0u64, 1, 2, 7, 8, 9, 16, 17, 33, 40, 65, 130, 257, 290, 300]);
    let p = (1000 + 10 * (N as u64 - back) + pick(&[0u64, 5]), v);
    match st.write_time_point(4, p.0, f64::from_bits(p.1)) {
        Ok(()) => { check(any_order || p.0 > 1000 + 10 * (N as u64 - 1), "stale-write-acknowledged"); put(&mut all, p) }
        Err(_) => check(!any_order && p.0 <= 1000 + 10 * (N as u64 - 1), "newer-write-refused"),
    }
    let (s, e) = match choose(4) { 0 => (0, u64::MAX), 1 => (1000 + u8() as u64, 1990), 2 => (3500, 3900 + u8() as u64), _ => (1275, 3725) };
    read(&st, 4, &all, s, e);
}
pub fn sled_long() { long(store::sled_at("st"), true) }
pub fn tikv_long() { long(store::tikv(), false) }

fn crowd_sets() -> Vec<Set> { (0..N).map(|i| vec![("host".to_string(), format!("h{}", i)), l("job", if i % 3 == 1 { "b" } else { "a" }), ("rack".to_string(), format!("r{}", i % 7))]).collect() }
fn crowd_queries(sets: &[Set]) -> Set {
    let k = pick(&[0usize, 1, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 299]);
    match choose(6) {
        0 => vec![l("job", "a")], 1 => vec![l("job", "b"), l("rack", "r3")], 2 => vec![l("rack", "r0"), l("job", "a")],
        3 => vec![sets[k][0].clone(), sets[k][1].clone()], 4 => vec![sets[k][2].clone(), sets[k][0].clone(), sets[(k + 1) % N][1].clone()], _ => vec![l("rack", "r6")],
    }
}
/// Hundreds of series with labels in common.
fn many<I: Indexer>(ix: I) {
    let sets = crowd_sets();
    for (i, s) in sets.iter().enumerate() { check(ix.create_index(labels(s), 1 + 3 * i as u64).is_ok(), "create-index-refused") }
    let k = pick(&[0usize, 1, 31, 32, 63, 64, 127, 128, 255, 256, 298, 299]);
    check(matches!(ix.get_series_id_by_labels(labels(&sets[k])), Ok(Some(x)) if x == 1 + 3 * k as u64), "exact-lookup-own");
    let mut other = sets[k].clone();
    other[2].1 = format!("r{}", (k + 1) % 7);
    check(matches!(ix.get_series_id_by_labels(labels(&other)), Ok(None)), "exact-lookup-other");
    let q = crowd_queries(&sets);
    let want: Vec<usize> = (0..N).filter(|&i| matches(&sets[i], &q)).collect();
    match ix.get_series_id_contains_labels(labels(&q)) {
        Ok(mut v) => { v.sort(); check(v == want.iter().map(|&i| 1 + 3 * i as u64).collect::<Vec<u64>>(), "contains-ids"); reach("hundreds") }
        Err(_) => check(false, "contains-error"),
    }
    match ix.get_series_metadata_contains_labels(labels(&q)) {
        Ok(v) => {
            check(v.len() == want.len(), "readback-found");
            for (id, ls) in &v {
                let i = (*id as usize).wrapping_sub(1) / 3;
                check(i < N && *id == 1 + 3 * i as u64 && want.contains(&i), "readback-id");
                if i < N { check(same(&set_of(ls), &sets[i]), "readback-labels") }
            }
        }
        Err(_) => check(false, "readback-error"),
    }
}
pub fn sled_many() { many(index::sled_at("ix")) }
pub fn tikv_many() { many(index::tikv()) }

/// Hundreds of series in one chunk.
fn full<S: Storage, I: Indexer>(st: S, ix: I) {
    let c = Chunk::new(st, ix, &opts(100, 1_000_000));
    let sets = crowd_sets();
    let v = u64();
    let mut all: Vec<(Set, Vec<Pt>)> = vec![];
    for (i, s) in sets.iter().enumerate() {
        let p = (200 + i as u64, if i == 150 { v } else { i as u64 });
        check(c.insert(labels(s), tp(p)).is_ok(), "in-range-refused");
        all.push((s.clone(), vec![p]));
    }
    for i in [299usize, 0, 64, 151] {
        let p = (5000, v);
        let mut s = sets[i].clone();
        s.swap(0, 2);
        check(c.insert(labels(&s), tp(p)).is_ok(), "in-range-refused");
        all[i].1.push(p);
    }
    let q = crowd_queries(&sets);
    let (s, e) = pick(&[(0u64, u64::MAX), (264, 5000), (100, 331)]);
    let want: Vec<(Set, Vec<Pt>)> = all.iter().filter(|x| matches(&x.0, &q)).map(|x| (x.0.clone(), between(&x.1, s, e))).collect();
    match chunk::ask(&c, &q, s, e) { Some(got) => { series_long(got, &want, "series-read"); reach("hundreds") } None => check(false, "query-error") }
}
/// As `series`, for many.
pub fn series_long(mut got: Vec<(Set, Vec<Pt>)>, want: &[(Set, Vec<Pt>)], id: &str) {
    let mut want: Vec<(Set, Vec<Pt>)> = want.iter().filter(|w| !w.1.is_empty()).cloned().collect();
    for x in got.iter_mut().chain(want.iter_mut()) { x.0.sort() }
    got.sort_by(|a, b| a.0.cmp(&b.0));
    want.sort_by(|a, b| a.0.cmp(&b.0));
    check(got.len() == want.len(), id);
    for (g, w) in got.iter().zip(&want) { check(g.0 == w.0, id); check(g.1 == w.1, id) }
}
pub fn sled_full() { full(store::sled_at("st"), index::sled_at("ix")) }
pub fn tikv_full() { full(store::tikv(), index::tikv()) }

/// Dozens of chunks, a series in all of them and some in a few.
pub fn chunks() {
    let (db, log) = on_kv(LONG);
    let n = 40usize;
    let sets: Vec<Set> = vec![vec![l("job", "a"), l("host", "x")], vec![l("job", "a")], vec![l("job", "a"), l("host", "y")]];
    let mut all: Vec<(Set, Vec<Pt>)> = sets.iter().map(|s| (s.clone(), vec![])).collect();
    let v = u64();
    let mut at = vec![];
    for i in 0..n {
        if i > 0 { check(db.verif_swap(last(&log).1 + 1).is_ok(), "swap-failed") }
        let s = last(&log).0;
        at.push(s);
        for j in 0..1 + i % 3 {
            let p = (s + 7 * j as u64, if i == 20 { v } else { (i * 3 + j) as u64 });
            check(db.write_time_point(labels(&sets[0]), tp(p)).is_ok(), "in-range-refused");
            all[0].1.push(p);
        }
        if i % 13 == 5 { let p = (s + 1, i as u64); check(db.write_time_point(labels(&sets[1]), tp(p)).is_ok(), "in-range-refused"); all[1].1.push(p) }
        if i == 39 { let p = (s + 2, v); check(db.write_time_point(labels(&sets[2]), tp(p)).is_ok(), "in-range-refused"); all[2].1.push(p) }
    }
    let (s, e) = match choose(5) { 0 => (0, u64::MAX), 1 => (at[7] + 7, at[38]), 2 => (at[38] + 8, u64::MAX), 3 => (at[20], at[21] - 1), _ => (0, at[0]) };
    let q = if boolean() { vec![l("job", "a")] } else { vec![l("host", "y"), l("job", "a")] };
    expect(&db, &all, &q, s, e, "merged-read");
    reach("dozens");
}
/// Points of one series of the same time, in one chunk: each is there.
pub fn same_time() {
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    let s = ranges()[0].0;
    let set = vec![l("job", "a")];
    let ts = [u8() as u64, u8() as u64, u8() as u64];
    let vs = [u64(), u64(), u64()];
    let mut all: Vec<Pt> = vec![];
    let ps: Vec<Pt> = (0..3).map(|i| (s + ts[i], vs[i])).collect();
    if boolean() { check(db.write_time_points(labels(&set), ps.iter().map(|p| tp(*p)).collect()).is_ok(), "in-range-refused") } else { for p in &ps { check(db.write_time_point(labels(&set), tp(*p)).is_ok(), "in-range-refused") } }
    for p in &ps { put(&mut all, *p) }
    expect(&db, &[(set.clone(), all)], &set, 0, u64::MAX, "merged-read");
    if ts[0] == ts[1] { reach("same-time") }
}
/// Batches of hundreds and more.
fn batch<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: &monolith::MonolithDb<S, I>, s: u64) {
    let set = vec![l("host", "x"), l("job", "a")];
    let n = pick(&[300u64, 1100]);
    let v = u64();
    let pts: Vec<Pt> = (0..n).map(|i| if i % 100 == 50 { (s - 1 - i, i) } else { (s + 3 * i, if i == n - 1 { v } else { i }) }).collect();
    check(db.write_time_points(labels(&set), pts.iter().map(|&p| tp(p)).collect()).is_ok(), "batch-refused");
    let kept: Vec<Pt> = pts.iter().cloned().filter(|p| p.0 >= s).collect();
    let (a, b) = pick(&[(0u64, u64::MAX), (s + 3 * 64, s + 3 * 290), (s + 3 * (n - 2), u64::MAX)]);
    expect(db, &[(set.clone(), kept)], &vec![set[0].clone()], a, b, "batch-read");
    reach("long-batch");
}
pub fn batch_kv() { let (db, log) = on_kv(LONG); let s = last(&log).0; batch(&*db, s) }
pub fn batch_sled() {
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    batch(&*db, ranges()[0].0)
}
/// Lists of hundreds of ids, and many lists.
pub fn ids() {
    let every = |k: u64, n: u64| -> Vec<u64> { (0..n).map(|i| 7 + k * i).collect() };
    let x = pick(&[7u64, 13, 607, 901, 1801, 1802]);
    let ls: Vec<Vec<u64>> = match choose(6) {
        0 => vec![every(2, 300), every(3, 300)],
        1 => vec![every(3, 300), vec![x], every(6, 300)],
        2 => vec![vec![x], every(1, 900)],
        3 => vec![every(1, 900), vec![x, 2000]],
        4 => (0..33).map(|i| every(1 + i % 3, 40)).collect(),
        _ => (0..20).map(|i| if i == 17 { vec![7, x] } else { every(1 + i % 2, 310) }).collect(),
    };
    let want: Vec<u64> = ls[0].iter().cloned().filter(|x| ls[1..].iter().all(|l| l.binary_search(x).is_ok())).collect();
    match monolith::utils::intersect_time_series_id_vec(ls) { Ok(got) => { check(got == want, "intersection"); reach("common-ids") } Err(_) => check(false, "intersection-error") }
}
/// Requests of hundreds of series, of a long series, and of a series without samples in between.
pub fn served() {
    use crate::server::*;
    use protobuf::Message;
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let s = last(&log).0;
    let mut all: Vec<(Set, Vec<Pt>)> = vec![];
    for i in 0..120u64 {
        let set = vec![("i".to_string(), format!("{}", i)), l("job", if i % 2 == 0 { "a" } else { "b" })];
        let n = if i == 60 { 1100 } else if i % 40 == 7 { 0 } else { 1 + i % 3 };
        all.push((set, (0..n).map(|j| (s + 10 * j, (i as f64 + j as f64 / 3.0).to_bits())).collect()));
    }
    let over_http = boolean();
    let rq = write_rq(&all);
    if over_http {
        match post(&srv, "/write", snappy(&rq.write_to_bytes().unwrap())) { Some((code, _)) => check(code == 200, "write-status"), None => check(false, "write-unanswered") }
    } else { check(srv.write(rq).is_ok(), "write-refused") }
    let ms: Vec<Set> = match choose(3) { 0 => vec![vec![l("job", "a")], vec![l("job", "b")]], 1 => vec![vec![l("i", "60"), l("job", "a")]], _ => (0..40).map(|i| vec![("i".to_string(), format!("{}", 3 * i))]).collect() };
    let rq = read_rq(ms.iter().map(|m| query(m, 0, i64::max_value())).collect());
    let r = if over_http {
        match post(&srv, "/read", snappy(&rq.write_to_bytes().unwrap())) {
            Some((code, body)) => { check(code == 200, "read-status"); decode(&body) }
            None => { check(false, "read-unanswered"); None }
        }
    } else { srv.query(rq).ok() };
    let r = match r { Some(r) => results(&r), None => { check(false, "read-error"); return } };
    check(r.len() == ms.len(), "results-count");
    for (got, m) in r.into_iter().zip(&ms) {
        let want: Vec<(Set, Vec<Pt>)> = all.iter().filter(|x| matches(&x.0, m)).cloned().collect();
        series_long(got, &want, "read-result");
    }
    reach("large");
}
/// Hundreds of entries under wide limits.
pub fn wal() {
    use crate::wal::Sink;
    use monolith::verif::*;
    let kind = choose(3);
    let lim = match kind { 0 => 0, 1 => pick(&[64usize, 100, 255, 256, 257, 1000]), _ => pick(&[4095usize, 4096, 8193, 65_535, 65_536, 65_537, 100_000]) };
    let pol = match kind { 0 => FlushPolicy::Immediate, 1 => FlushPolicy::NumBased(lim), _ => FlushPolicy::SizeBased(lim) };
    let sink = Sink::new(pick(&[usize::max_value(), 4096]));
    let mut s = match Segment::new(pol, sink.clone()) { Ok(s) => s, Err(_) => { check(false, "segment-refused"); return } };
    let mut want: Vec<u8> = vec![];
    let mut ends = vec![0usize];
    for i in 0..N as u64 {
        let n = if i % 64 == 63 { 5000 } else { i as usize % 90 };
        let mut e = Entry::new(i, EntryType::Default);
        e.push(vec![i as u8; n]);
        want.extend(e.get_bytes());
        ends.push(want.len());
        check(s.write_entry(e).is_ok(), "entry-refused");
        let out = sink.len() - 8;
        match ends.binary_search(&out) {
            Ok(m) => check(match kind { 0 => out == want.len(), 1 => ends.len() - 1 - m < lim, _ => want.len() - out < lim }, "held-back"),
            Err(_) => check(false, "segment-part"),
        }
    }
    check(s.close().is_ok(), "close-refused");
    let got = sink.got();
    check(got.len() == 16 + want.len(), "closed-length");
    if got.len() == 16 + want.len() { check(got[8..8 + want.len()] == want[..], "closed-entries") }
    reach("long-run");
}
/// Dozens of chunks of earlier runs.
pub fn restart() {
    use crate::life::*;
    fresh_dir();
    let n = 40usize;
    let k = pick(&[0usize, 15, 16, 31, 32, 39]);
    let v = u64();
    let mut want: Vec<(Set, Vec<Pt>)> = vec![(sets()[0].clone(), vec![]), (sets()[1].clone(), vec![])];
    let r = |i: usize| (0xf00 + 0x40 * i as u64, 0xf3f + 0x40 * i as u64);
    for j in 0..n {
        let i = (j * 17 + 3) % n;
        past(r(i), &[(i % 2, (r(i).0 + 1, if i == k { v } else { i as u64 }))]);
    }
    for i in 0..n { want[i % 2].1.push((r(i).0 + 1, if i == k { v } else { i as u64 })) }
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    let (s, e) = pick(&[(0u64, u64::MAX), (0xf41, 0x1801), (r(20).0, r(20).1)]);
    expect(&db, &want, &vec![l("job", "a")], s, e, "reopened-read");
    reach("dozens");
}
#[allow(dead_code)]
fn _u() { let _ = series; }

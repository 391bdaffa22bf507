//! A database opened again: what earlier runs stored, what else lies in its directory, its metadata.
use crate::chunk::{l, matches, series, tp, Pt};
use crate::db::{ask, db_dir, expect, on_sled, options, place, ranges, LONG, PLACES};
use crate::index::{labels, Set};
use crate::prim::*;
use monolith::chunk::{Chunk, ChunkOpts};
use monolith::indexer::{SledIndexer, SledIndexerBuilder};
use monolith::storage::{SledStorage, SledStorageBuilder};
use monolith::utils::encode_chunk_dir;
use monolith::{Builder, MonolithDb};
use std::fs;
use std::os::unix::ffi::OsStrExt;
use std::path::PathBuf;
use std::time::Duration;

pub fn sets() -> Vec<Set> { vec![vec![l("job", "a"), l("host", "x")], vec![l("job", "a")], vec![l("job", "b"), l("host", "ü")]] }
/// A chunk as an earlier run left it.
pub fn past(range: (u64, u64), pts: &[(usize, Pt)]) -> PathBuf {
    let d = db_dir().join(encode_chunk_dir(range.0, range.1));
    let o = ChunkOpts { start_time: Some(range.0), end_time: Some(range.1), identifier: vec![9; 16] };
    check(o.write_config_to_dir(&d).is_ok(), "chunk-config-refused");
    let p = d.display().to_string();
    let (st, ix) = match (SledStorageBuilder::new().build(p.clone(), Some(&o), None), SledIndexerBuilder::new().build(p, Some(&o), None)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => { check(false, "chunk-build-failed"); unreachable!() }
    };
    let c = Chunk::<SledStorage, SledIndexer>::new(st, ix, &o);
    for (k, p) in pts { check(c.insert(labels(&sets()[*k]), tp(*p)).is_ok(), "in-range-refused") }
    d
}
pub fn fresh_dir() { fs::create_dir_all(db_dir()).unwrap() }

/// Chunks of earlier runs, made in any order, all answer again; the newest points are written beside them.
pub fn reopen() {
    fresh_dir();
    // names of different length: their order as text is not their order in time
    let all = [(0xf00u64, 0xfff_u64), (0x1000, 0x1fff), (0xf_0000, 0xf_ffff)];
    let order = pick(&[[0usize, 1, 2], [2, 1, 0], [1, 2, 0], [2, 0, 1]]);
    let n = 2 + choose(2);
    let mut want: Vec<(Set, Vec<Pt>)> = sets().iter().map(|s| (s.clone(), vec![])).collect();
    let mut pts: Vec<Vec<(usize, Pt)>> = vec![vec![]; 3];
    for &i in &order[..n] {
        let k = if i == 1 { choose(3) } else { 0 };
        let p = (all[i].0 + (u8() as u64), u64());
        let q = (all[i].1, u64());
        pts[i] = vec![(k, p), (1, q)];
        past(all[i], &pts[i].clone());
    }
    for i in 0..3 { for (k, p) in &pts[i] { want[*k].1.push(*p) } }
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    let now = match ranges().last() { Some(r) => r.0, None => { check(false, "no-chunk"); return } };
    let p = (now + 1, u64());
    check(db.write_time_point(labels(&sets()[0]), tp(p)).is_ok(), "in-range-refused");
    want[0].1.push(p);
    // closed chunks take nothing
    let late = db.write_time_point(labels(&sets()[0]), tp((all[1].0 + 300, 1)));
    check(late.is_err(), "out-of-range-acknowledged");
    let (q, s, e) = match choose(3) { 0 => (vec![l("job", "a")], u64(), u64()), 1 => (vec![l("host", "x")], 0, u64::MAX), _ => (vec![l("host", "ü"), l("job", "b")], 0, u64::MAX) };
    expect(&db, &want, &q, s, e, "reopened-read");
    reach("reopened");
}
/// Chunks of earlier runs whose ranges lie within each other, touch or overlap: each point is found by every query that covers it.
pub fn nested() {
    fresh_dir();
    let rs = pick(&[
        [(0x1000u64, 0x9000u64), (0x2000, 0x4000), (0x3000, 0x3800)],
        [(0x1000, 0x3000), (0x2000, 0x5000), (0x4000, 0x4800)],
        [(0x1000, 0x2000), (0x2001, 0x9000), (0x3000, 0x3000)],
    ]);
    let mut want: Vec<(Set, Vec<Pt>)> = vec![(sets()[0].clone(), vec![])];
    // at most one point of a time
    for (i, r) in rs.iter().enumerate() {
        let p = (if i == 0 { r.0 } else { r.1 - 4 * i as u64 * (r.1 > r.0) as u64 }, u64());
        past(*r, &[(0, p)]);
        crate::chunk::put(&mut want[0].1, p);
    }
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    let (s, e) = (u64(), u64());
    expect(&db, &want, &vec![l("job", "a")], s, e, "reopened-read");
    reach("nested");
}
/// A dozen chunks of earlier runs.
pub fn dozen() {
    fresh_dir();
    let n = 12usize;
    let mut want: Vec<(Set, Vec<Pt>)> = sets().iter().map(|s| (s.clone(), vec![])).collect();
    let k = choose(n);
    let v = u64();
    for j in 0..n {
        let i = (j * 5) % n; // in no order
        let r = (0xe00 + 0x80 * i as u64, 0xe7f + 0x80 * i as u64);
        past(r, &[(i % 2, (r.0 + 1, if i == k { v } else { i as u64 })), (2, (r.1, i as u64))]);
    }
    for i in 0..n {
        let r = (0xe00 + 0x80 * i as u64, 0xe7f + 0x80 * i as u64);
        want[i % 2].1.push((r.0 + 1, if i == k { v } else { i as u64 }));
        want[2].1.push((r.1, i as u64));
    }
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    let (q, s, e) = match choose(3) { 0 => (vec![l("job", "a")], u64(), 0x1101), 1 => (vec![l("job", "b")], 0xe7f, u64()), _ => (vec![l("job", "a")], 0, u64::MAX) };
    expect(&db, &want, &q, s, e, "reopened-read");
    reach("dozen");
}
/// A run that swaps chunks, ends, and the next run.
pub fn two_lives() {
    let n = 1 + choose(2);
    let vals: Vec<u64> = (0..2 * n).map(|_| u64()).collect();
    let v = vals.clone();
    phase(move || {
        let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
        let s = ranges()[0].0;
        for i in 0..n {
            if i > 0 { check(db.verif_swap(s + 300 * i as u64).is_ok(), "swap-failed") }
            let t = s + 300 * i as u64;
            check(db.write_time_points(labels(&sets()[0]), vec![tp((t, v[2 * i])), tp((t + 5, v[2 * i + 1]))]).is_ok(), "in-range-refused");
            check(db.write_time_point(labels(&sets()[2]), tp((t + 2, v[2 * i]))).is_ok(), "in-range-refused");
        }
        // the store writes to disk every half second
        std::thread::sleep(Duration::from_millis(1500));
    });
    let old = ranges();
    check(old.len() == n, "chunk-directories");
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    let s = old[0].0;
    let mut want: Vec<(Set, Vec<Pt>)> = vec![(sets()[0].clone(), vec![]), (sets()[2].clone(), vec![])];
    for i in 0..n {
        let t = s + 300 * i as u64;
        want[0].1.extend([(t, vals[2 * i]), (t + 5, vals[2 * i + 1])]);
        want[1].1.push((t + 2, vals[2 * i]));
    }
    let p = (ranges().last().unwrap().0 + 3, u64());
    check(p.0 > s + 1000, "chunk-directories");
    check(db.write_time_point(labels(&sets()[2]), tp(p)).is_ok(), "in-range-refused");
    want[1].1.push(p);
    let q = if boolean() { vec![l("job", "a")] } else { vec![l("host", "ü")] };
    expect(&db, &want, &q, 0, u64::MAX, "reopened-read");
    reach("second-run");
}
/// Wherever the directory lies and whatever it is called.
pub fn somewhere() {
    place(choose(PLACES.len()));
    fresh_dir();
    let (v, w) = (u64(), u64());
    past((0x1000, 0x1fff), &[(0, (0x1001, v))]);
    phase(move || {
        let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
        let s = ranges().last().unwrap().0;
        check(db.write_time_point(labels(&sets()[0]), tp((s, w))).is_ok(), "in-range-refused");
        std::thread::sleep(Duration::from_millis(1500));
    });
    let s = ranges().last().unwrap().0;
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    expect(&db, &[(sets()[0].clone(), vec![(0x1001, v), (s, w)])], &vec![l("job", "a")], 0, u64::MAX, "reopened-read");
    reach("somewhere");
}
/// Points of an earlier run that are later than the restart, and a chunk that overlaps what comes after.
pub fn future() {
    let (x, y, v) = (u64(), u64(), u64());
    let span = LONG.as_millis() as u64;
    assume(x < span && y < span && x < y);
    let set = sets()[0].clone();
    let w = set.clone();
    phase(move || {
        let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
        let s = ranges()[0].0;
        check(db.write_time_points(labels(&w), vec![tp((s + x, v)), tp((s + y, 2))]).is_ok(), "in-range-refused");
        std::thread::sleep(Duration::from_millis(1500));
    });
    let s = ranges()[0].0;
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    let mut want = vec![(s + x, v), (s + y, 2)];
    let b = (ranges().last().unwrap().0 + 100_000, u64());
    if boolean() {
        assume(b.0 != s + x && b.0 != s + y);
        check(db.write_time_point(labels(&set), tp(b)).is_ok(), "in-range-refused");
        crate::chunk::put(&mut want, b);
    }
    expect(&db, &[(set, want)], &vec![l("job", "a")], s + u32() as u64, u64(), "reopened-read");
    reach("future");
}
/// What else lies in the directory neither stops the database nor shows in answers.
pub fn clutter() {
    fresh_dir();
    let v = u64();
    let r = (0x1000u64, 0x1fff);
    past(r, &[(0, (0x1001, v))]);
    let d = db_dir();
    match choose(8) {
        0 => fs::create_dir_all(d.join("12ab")).unwrap(),
        1 => fs::write(d.join("beef"), "x").unwrap(),
        2 => fs::create_dir_all(d.join("lost+found")).unwrap(),
        3 => fs::write(d.join("notes.txt"), "x").unwrap(),
        4 => fs::create_dir_all(d.join("10000000000000001000000000000000000000")).unwrap(),
        5 => fs::write(d.join(std::ffi::OsStr::from_bytes(b"a\xff\xfe")), "x").unwrap(),
        6 => fs::create_dir_all(d.join("été")).unwrap(),
        _ => {}
    }
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    expect(&db, &[(sets()[0].clone(), vec![(0x1001, v)])], &vec![l("job", "a")], 0, u64::MAX, "reopened-read");
    reach("clutter");
}
/// A damaged metadata file of a chunk: an error, or all there.
pub fn damaged_chunk() {
    fresh_dir();
    let v = u64();
    let d = past((0x1000, 0x1fff), &[(0, (0x1001, v))]);
    let f = d.join("metadata.json");
    let mut b = fs::read(&f).unwrap();
    if boolean() { let n = pick(&[0usize, 1, 10, b.len() - 1]); b.truncate(n); } else { let k = pick(&[0usize, 1, 14, b.len() - 1]); b[k] = u8() }
    fs::write(&f, &b).unwrap();
    match on_sled(LONG) {
        Some(db) => { expect(&db, &[(sets()[0].clone(), vec![(0x1001, v)])], &vec![l("job", "a")], 0, u64::MAX, "damaged-chunk-left-out"); reach("opened") }
        None => reach("refused"),
    }
}

// ----------------------------------------------------------------------------------- metadata
pub fn open(kind: usize) -> bool {
    use crate::db::{Kv, Log, OnKv};
    use monolith::test_utils::DummyTiKvBackend;
    use monolith::indexer::TiKvIndexer;
    use monolith::storage::TiKvStorage;
    let k = || Box::new(OnKv::fresh(Kv(DummyTiKvBackend::new()), Log::default(), 1));
    let o = options(LONG);
    let r = match kind {
        0 => MonolithDb::<SledStorage, SledIndexer>::new(o, Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())).is_ok(),
        1 => MonolithDb::<TiKvStorage, SledIndexer>::new(o, k(), Box::new(SledIndexerBuilder::new())).is_ok(),
        2 => MonolithDb::<SledStorage, TiKvIndexer>::new(o, Box::new(SledStorageBuilder::new()), k()).is_ok(),
        _ => MonolithDb::<TiKvStorage, TiKvIndexer>::new(o, k(), k()).is_ok(),
    };
    std::thread::sleep(Duration::from_millis(5));
    r
}
/// A directory belongs to the storage and index it was first used with.
pub fn kinds() {
    let (a, b, c) = (choose(4), choose(4), choose(4));
    phase(move || { check(open(a), "open-failed"); std::thread::sleep(Duration::from_millis(1500)) });
    phase(move || { check(open(b) == (a == b), "other-backend-taken"); std::thread::sleep(Duration::from_millis(1500)) });
    // a refused attempt changes nothing
    check(open(c) == (a == c), "other-backend-taken");
    reach(if a == b { "same" } else { "other" });
}
/// A metadata file that is damaged is refused and kept, unless it still says the same.
pub fn damaged() {
    phase(|| { check(open(3), "open-failed"); std::thread::sleep(Duration::from_millis(20)) });
    let f = db_dir().join("metadata.json");
    let good = fs::read(&f).unwrap();
    let mut b = good.clone();
    // one byte is any other, or the file is cut short
    if boolean() { let k = choose(b.len()); b[k] = u8() } else { let n = choose(b.len()); b.truncate(n) }
    let same = b == good;
    fs::write(&f, &b).unwrap();
    let ok = open(3);
    // (white space may change)
    let blank = b.len() == good.len() && b.iter().zip(&good).all(|(x, y)| x == y || (matches!(*x, b' ' | b'\n' | b'\t' | b'\r') && !y.is_ascii_alphanumeric()));
    if same { check(ok, "open-failed") } else if !blank { check(!ok, "damaged-metadata-taken"); check(fs::read(&f).unwrap() == b, "damaged-metadata-overwritten") }
    reach(if ok { "opened" } else { "refused" });
}
/// Options of a chunk come back as they were written.
pub fn chunk_opts() {
    let d = dir("opts");
    fs::create_dir_all(&d).unwrap();
    check(ChunkOpts::read_config_from_dir(&d).is_err(), "missing-options-read");
    // one decimal digit of a time or one byte of the identifier are any
    let (a, b) = pick(&[(0u64, 7u64), (1_600_000_000_000, 1_600_012_000_000), (7, u64::MAX - 15)]);
    let mut id = vec![200u8; 16];
    let (mut x, mut y) = (0, 0);
    match choose(3) {
        0 => { x = u8() as u64; assume(x < 10) }
        1 => { y = u8() as u64; assume(y < 10) }
        _ => { let k = pick(&[0usize, 15]); id[k] = u8() }
    }
    let o = ChunkOpts { start_time: Some(a + x), end_time: Some(b + y), identifier: id };
    check(o.write_config_to_dir(&d).is_ok(), "options-refused");
    match ChunkOpts::read_config_from_dir(&d) { Ok(r) => check(r == o, "options-read"), Err(_) => check(false, "options-read") }
    reach("options");
}
#[allow(dead_code)]
fn _u(s: &Set, q: &Set) -> bool { let _ = (ask::<SledStorage, SledIndexer>, series); matches(s, q) }

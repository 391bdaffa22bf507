//! The database: chunks swapped over time, batches, queries across chunks, concurrent use.
use crate::chunk::{between, l, matches, points, put, series, tp, Pt};
use crate::index::{labels, set_of, Set};
use crate::prim::*;
use monolith::chunk::ChunkOpts;
use monolith::indexer::{Indexer, SledIndexer, SledIndexerBuilder, TiKvIndexer};
use monolith::option::DbOpts;
use monolith::storage::{SledStorage, SledStorageBuilder, Storage, TiKvStorage};
use monolith::test_utils::DummyTiKvBackend;
use monolith::verif::TiKvRawBackend;
use monolith::{Builder, MonolithDb, Result};
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Shared key-value store a thread may be preempted at, before every read and write.
#[derive(Clone)]
pub struct Kv(pub DummyTiKvBackend);
impl TiKvRawBackend for Kv {
    fn set(&self, k: Vec<u8>, v: Vec<u8>) -> Result<()> { yield_now(); self.0.set(k, v) }
    fn get(&self, k: Vec<u8>) -> Result<Option<Vec<u8>>> { yield_now(); self.0.get(k) }
}
/// Ranges of the chunks made so far.
pub type Log = Arc<Mutex<Vec<(u64, u64)>>>;
/// Makes the parts of every chunk on one key-value store.
pub struct OnKv { kv: Box<dyn Fn() -> Box<dyn TiKvRawBackend> + Send + Sync>, log: Log, id: u8 }
impl OnKv {
    pub fn fresh(kv: Kv, log: Log, id: u8) -> OnKv { OnKv::on(move || Box::new(kv.clone()), log, id) }
    pub fn on<F: Fn() -> Box<dyn TiKvRawBackend> + Send + Sync + 'static>(f: F, log: Log, id: u8) -> OnKv { OnKv { kv: Box::new(f), log, id } }
    fn next(&self, o: Option<&ChunkOpts>) -> Vec<u8> {
        let mut g = self.log.lock().unwrap();
        if let Some(o) = o { if let (Some(s), Some(e)) = (o.start_time, o.end_time) { g.push((s, e)) } }
        vec![self.id.wrapping_add(2 * g.len() as u8); 16]
    }
}
impl Builder<TiKvStorage> for OnKv {
    fn build(&self, _: String, o: Option<&ChunkOpts>, _: Option<&DbOpts>) -> Result<TiKvStorage> { Ok(TiKvStorage::verif_new((self.kv)(), vec![1; 16], self.next(o))) }
    fn write_to_chunk(&self, _: &Path) -> Result<()> { Ok(()) }
    fn read_from_chunk(&self, _: &Path, _: Option<&ChunkOpts>) -> Result<Option<TiKvStorage>> { Ok(None) }
    fn write_config(&self, _: &Path) -> Result<()> { Ok(()) }
    fn read_config(&self, _: &Path) -> Result<()> { Ok(()) }
}
impl Builder<TiKvIndexer> for OnKv {
    fn build(&self, _: String, o: Option<&ChunkOpts>, _: Option<&DbOpts>) -> Result<TiKvIndexer> { Ok(TiKvIndexer::verif_new((self.kv)(), vec![1; 16], self.next(o))) }
    fn write_to_chunk(&self, _: &Path) -> Result<()> { Ok(()) }
    fn read_from_chunk(&self, _: &Path, _: Option<&ChunkOpts>) -> Result<Option<TiKvIndexer>> { Ok(None) }
    fn write_config(&self, _: &Path) -> Result<()> { Ok(()) }
    fn read_config(&self, _: &Path) -> Result<()> { Ok(()) }
}
pub type KvDb = Arc<MonolithDb<TiKvStorage, TiKvIndexer>>;
pub type MonolithDbOnKv = MonolithDb<TiKvStorage, TiKvIndexer>;
pub type SledDb = Arc<MonolithDb<SledStorage, SledIndexer>>;
pub const LONG: Duration = Duration::from_millis(1_000_000_000_000);

static PLACE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
/// The directory of the database is called so from here on.
pub fn place(i: usize) { PLACE.store(i, std::sync::atomic::Ordering::SeqCst) }
pub const PLACES: [&str; 5] = ["db", "dü", "a b/0", "日本語/データベース/€", "beef"];
pub fn db_dir() -> std::path::PathBuf { dir(PLACES[PLACE.load(std::sync::atomic::Ordering::SeqCst)]) }
pub fn options(size: Duration) -> DbOpts {
    let base = db_dir();
    std::fs::create_dir_all(&base).unwrap();
    DbOpts { base_dir: base, chunk_size: size, ..DbOpts::default() }
}
/// A database on a key-value store, and the log of its chunks' ranges.
pub fn on_kv(size: Duration) -> (KvDb, Log) {
    let kv = Kv(DummyTiKvBackend::new());
    let (log, quiet) = (Log::default(), Log::default());
    let db = MonolithDb::<TiKvStorage, TiKvIndexer>::new(options(size), Box::new(OnKv::fresh(kv.clone(), log.clone(), 1)), Box::new(OnKv::fresh(kv, quiet, 2))).ok();
    // its own threads come to rest
    std::thread::sleep(Duration::from_millis(1));
    check(db.is_some(), "open-failed");
    (db.unwrap(), log)
}
pub fn on_sled(size: Duration) -> Option<SledDb> {
    let db = MonolithDb::<SledStorage, SledIndexer>::new(options(size), Box::new(SledStorageBuilder::new()), Box::new(SledIndexerBuilder::new())).ok();
    std::thread::sleep(Duration::from_millis(1));
    db
}
/// Ranges of the chunks in the database's directory.
pub fn ranges() -> Vec<(u64, u64)> {
    let mut v: Vec<(u64, u64)> = std::fs::read_dir(db_dir()).unwrap().filter_map(|d| u128::from_str_radix(&d.unwrap().file_name().to_string_lossy(), 16).ok()).map(|x| ((x >> 64) as u64, x as u64)).collect();
    v.sort();
    v
}
pub fn last(log: &Log) -> (u64, u64) { *log.lock().unwrap().last().unwrap() }

pub fn ask<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: &MonolithDb<S, I>, q: &Set, s: u64, e: u64) -> Option<Vec<(Set, Vec<Pt>)>> {
    db.query(labels(q), s, e).ok().map(|v| v.iter().map(|(l, p)| (set_of(l), points(p))).collect())
}
pub fn expect<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: &MonolithDb<S, I>, all: &[(Set, Vec<Pt>)], q: &Set, s: u64, e: u64, id: &str) {
    let want: Vec<(Set, Vec<Pt>)> = all.iter().filter(|x| matches(&x.0, q)).map(|x| (x.0.clone(), between(&x.1, s, e))).collect();
    match ask(db, q, s, e) {
        Some(got) => { if got.iter().any(|g| g.1.len() > 1) { reach("several-points") } series(got, &want, id) }
        None => check(false, "query-error"),
    }
}

/// Three chunks, points of two series in them, any query range.
fn merge(points_each: usize) {
    let (db, log) = on_kv(LONG);
    let sets: Vec<Set> = vec![vec![l("host", "x"), l("job", "a")], vec![l("job", "a")]];
    let mut all: Vec<(Set, Vec<Pt>)> = sets.iter().map(|s| (s.clone(), vec![])).collect();
    let chunks = 3;
    for i in 0..chunks {
        if i > 0 {
            let at = last(&log).1 + [1, 500][i - 1];
            check(db.verif_swap(at).is_ok(), "swap-failed");
        }
        let (s, e) = last(&log);
        for _ in 0..choose(points_each + 1) {
            let k = choose(2);
            let p = (u64(), u64());
            assume(s <= p.0 && p.0 <= e);
            if let Some(x) = all[k].1.last() { assume(x.0 < p.0) }
            let mut set = sets[k].clone();
            if i == 1 { set.reverse() }
            let ok = if i != 1 { db.write_time_point(labels(&set), tp(p)).is_ok() } else { db.write_time_points(labels(&set), vec![tp(p)]).is_ok() };
            check(ok, "in-range-refused");
            all[k].1.push(p);
        }
    }
    let (qs, qe) = (u64(), u64());
    expect(&db, &all, &vec![l("job", "a")], qs, qe, "merged-read");
}
pub fn merge2() { merge(1) }
/// Two chunks, two points in each, late ones refused.
pub fn merge_pairs() {
    let (db, log) = on_kv(LONG);
    let set = vec![l("job", "a")];
    let mut all: Vec<(Set, Vec<Pt>)> = vec![(set.clone(), vec![])];
    for i in 0..2 {
        if i > 0 { check(db.verif_swap(last(&log).1 + 1).is_ok(), "swap-failed") }
        let (s, e) = last(&log);
        for j in 0..2 {
            let p = (u64(), u64());
            let inside = s <= p.0 && p.0 <= e;
            let newer = j == 0 || all[0].1.last().map_or(true, |x| x.0 < p.0 || x.0 < s);
            match db.write_time_point(labels(&set), tp(p)) {
                Ok(()) => { check(inside, "out-of-range-acknowledged"); check(newer, "stale-acknowledged"); all[0].1.push(p) }
                Err(_) => check(!inside || !newer, "in-range-refused"),
            }
        }
    }
    let (qs, qe) = (u64(), u64());
    expect(&db, &all, &set, qs, qe, "merged-read");
}
/// Series that live in different chunks only, and one in both.
pub fn merge_series() {
    let (db, log) = on_kv(LONG);
    let sets: Vec<Set> = vec![vec![l("job", "a")], vec![l("job", "a"), l("host", "x")], vec![l("job", "b"), l("host", "x")]];
    let mut all: Vec<(Set, Vec<Pt>)> = sets.iter().map(|s| (s.clone(), vec![])).collect();
    let which = [choose(3), choose(3), choose(3), choose(3)];
    for i in 0..4 {
        if i == 2 { check(db.verif_swap(last(&log).1 + 1).is_ok(), "swap-failed") }
        let t = last(&log).0 + i as u64 * 7;
        let p = (t, u64());
        check(db.write_time_points(labels(&sets[which[i]]), vec![tp(p)]).is_ok(), "in-range-refused");
        all[which[i]].1.push(p);
    }
    let q = match choose(4) { 0 => vec![l("job", "a")], 1 => vec![l("host", "x")], 2 => vec![l("host", "x"), l("job", "b")], _ => vec![l("job", "c")] };
    expect(&db, &all, &q, 0, u64::MAX, "merged-read");
    reach("merged-series");
}
/// Many chunks, a few points in each.
pub fn merge_chunks() {
    let (db, log) = on_kv(LONG);
    let sets: Vec<Set> = vec![vec![l("job", "a"), l("host", "x")], vec![l("job", "a")]];
    let mut all: Vec<(Set, Vec<Pt>)> = sets.iter().map(|s| (s.clone(), vec![])).collect();
    let n = 7;
    let k = choose(n);
    let x = u64();
    let mut at = vec![];
    for i in 0..n {
        if i > 0 { check(db.verif_swap(last(&log).1 + 1).is_ok(), "swap-failed") }
        let (s, e) = last(&log);
        at.push(s + 10);
        for (j, t) in [s, s + 10, e].iter().enumerate() {
            let p = (*t, if i == k { x } else { (i * 3 + j) as u64 });
            let w = (i + j) % 2;
            check(db.write_time_point(labels(&sets[w]), tp(p)).is_ok(), "in-range-refused");
            all[w].1.push(p);
        }
    }
    let (qs, qe) = match choose(3) { 0 => (u64(), at[4]), 1 => (at[1], u64()), _ => (0, u64::MAX) };
    expect(&db, &all, &vec![l("job", "a")], qs, qe, "merged-read");
    reach("chunks");
}
/// A longer batch: one point any, the others in order; then a second batch.
fn batch_long<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: &MonolithDb<S, I>, s: u64, any_order: bool) {
    let set = vec![l("host", "x"), l("job", "a")];
    let n = pick(&[12usize, 40]);
    let k = pick(&[0usize, n / 2, n - 1]);
    let mut pts: Vec<Pt> = (0..n).map(|i| (s + 5 + 2 * i as u64, i as u64)).collect();
    pts[k] = (if any_order { s + u8() as u64 } else { u64() }, u64());
    if !any_order { assume(pts[k].0 < s || (k == 0 || pts[k - 1].0 < pts[k].0) && (k + 1 == n || pts[k].0 < pts[k + 1].0)) }
    check(db.write_time_points(labels(&set), pts.iter().map(|&p| tp(p)).collect()).is_ok(), "batch-refused");
    let mut kept: Vec<Pt> = vec![];
    let e = s + LONG.as_millis() as u64 - 1000;
    for &p in &pts { if p.0 < s { continue } put(&mut kept, p) }
    if kept.iter().any(|p| p.0 > e) { return }
    expect(db, &[(set.clone(), kept.clone())], &vec![set[0].clone()], 0, u64::MAX, "batch-read");
    let more: Vec<Pt> = (0..3).map(|i| (s + 100_000 + i, u64())).collect();
    if kept.iter().any(|p| p.0 >= s + 100_000) { return }
    check(db.write_time_points(labels(&set), more.iter().map(|&p| tp(p)).collect()).is_ok(), "batch-refused");
    kept.extend(more);
    expect(db, &[(set.clone(), kept)], &vec![set[1].clone()], 0, u64::MAX, "batch-read");
    reach("batch");
}
pub fn batch_long_kv() { let (db, log) = on_kv(LONG); let s = last(&log).0; batch_long(&*db, s, false) }
pub fn batch_long_sled() {
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    batch_long(&*db, ranges()[0].0, true)
}
/// A batch stores exactly its points in the chunk's range, whichever they are.
fn batch<S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static>(db: &MonolithDb<S, I>, s: u64, e: u64, n: usize, any_order: bool) {
    let set = vec![l("host", "x"), l("job", "a")];
    let pts: Vec<Pt> = (0..n).map(|_| (u64(), u64())).collect();
    let ok = db.write_time_points(labels(&set), pts.iter().map(|&p| tp(p)).collect()).is_ok();
    let mut kept: Vec<Pt> = Vec::new();
    let mut refused = false;
    for &p in &pts {
        if !(s <= p.0 && p.0 <= e) { reach("left-out"); continue }
        if !any_order && kept.last().map_or(false, |x| x.0 >= p.0) { refused = true; continue }
        put(&mut kept, p);
    }
    check(ok == !refused, "batch-acknowledgement");
    expect(db, &[(set.clone(), kept)], &vec![set[0].clone()], 0, u64::MAX, "batch-read");
    reach("batch");
}
pub fn batch_kv() { let (db, log) = on_kv(LONG); let (s, e) = last(&log); batch(&db, s, e, 3, false) }
pub fn batch_sled() {
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
    let (s, e) = ranges()[0];
    batch(&db, s, e, 3, true)
}
/// Two batches of two series, one after the other.
pub fn batch_two() {
    let (db, log) = on_kv(LONG);
    let (s, e) = last(&log);
    let sets = [vec![l("job", "a")], vec![l("job", "a"), l("host", "x")]];
    let mut all = vec![];
    for i in 0..2 {
        let pts: Vec<Pt> = (0..2).map(|_| (u64(), u64())).collect();
        assume(s <= pts[0].0 && pts[0].0 < pts[1].0);
        check(db.write_time_points(labels(&sets[i]), pts.iter().map(|&p| tp(p)).collect()).is_ok(), "batch-refused");
        all.push((sets[i].clone(), between(&pts, s, e)));
    }
    expect(&db, &all, &sets[0], 0, u64::MAX, "batch-read");
    reach("batch");
}

/// No chunk is swapped out before its time is over.
fn not_early(log: &Log) {
    let l = log.lock().unwrap();
    for w in l.windows(2) { check(w[1].0 + 5 >= w[0].1, "swapped-early") }
}
/// The chunk is swapped when its time is over: old points stay, new ones are taken.
pub fn timer() {
    let (db, log) = on_kv(Duration::from_millis(600));
    let set = vec![l("job", "a")];
    let (s, e) = last(&log);
    let p = (s + 5, u64());
    let a = db.write_time_point(labels(&set), tp(p)).is_ok();
    not_early(&log);
    assume(log.lock().unwrap().len() == 1); // (on a slow machine the chunk may have passed)
    check(a, "in-range-refused");
    std::thread::sleep(Duration::from_millis(800));
    not_early(&log);
    let n = log.lock().unwrap().len();
    check(n >= 2, "no-swap");
    let (s2, e2) = last(&log);
    check(s2 > e && s2 <= e + 200 * n as u64, "chunks-apart");
    check(e2 - s2 == e - s, "chunk-length");
    let r = (s2 + 3, u64());
    let b = db.write_time_point(labels(&set), tp(r)).is_ok();
    assume(log.lock().unwrap().len() == n);
    check(b, "in-range-refused");
    expect(&db, &[(set.clone(), vec![p, r])], &set, 0, u64::MAX, "merged-read");
    reach("timer");
}

/// A timed swap that fails is not the last: the next one makes up for it.
pub fn timer_again() {
    let kv = Kv(DummyTiKvBackend::new());
    let (log, left) = (Log::default(), Arc::new(Mutex::new(None)));
    let made = MonolithDbOnKv::new(options(Duration::from_millis(600)),
        Box::new(crate::faults::Balky::new(OnKv::fresh(kv.clone(), log.clone(), 1), &left)), Box::new(crate::faults::Balky::new(OnKv::fresh(kv, Log::default(), 2), &left)));
    let db = match made { Ok(d) => d, Err(_) => { check(false, "open-failed"); return } };
    let set = vec![l("job", "a")];
    let (s, e) = last(&log);
    let p = (s + 5, u64());
    let a = db.write_time_point(labels(&set), tp(p)).is_ok();
    *left.lock().unwrap() = Some(choose(4));
    not_early(&log);
    assume(log.lock().unwrap().len() == 1); // (on a slow machine the chunk may have passed)
    check(a, "in-range-refused");
    std::thread::sleep(Duration::from_millis(900));
    not_early(&log);
    let failed = left.lock().unwrap().is_none();
    assume(failed && monolith::utils::get_current_timestamp() < e + 500);
    let r = (s + 6, u64());
    let b = db.write_time_point(labels(&set), tp(r)).is_ok();
    assume(monolith::utils::get_current_timestamp() < e + 550);
    check(b, "write-after-failed-swap");
    let n = log.lock().unwrap().len();
    for _ in 0..30 { if log.lock().unwrap().len() == n { std::thread::sleep(Duration::from_millis(100)) } }
    check(log.lock().unwrap().len() > n, "no-swap-after-failed-swap");
    let (s2, e2) = last(&log);
    check(s2 > e && e2 - s2 == e - s, "chunks-apart");
    std::thread::sleep(Duration::from_millis(20));
    let q = (s2 + 3, u64());
    let c = db.write_time_point(labels(&set), tp(q)).is_ok();
    assume(last(&log).0 == s2);
    check(c, "in-range-refused");
    expect(&db, &[(set.clone(), vec![p, r, q])], &set, 0, u64::MAX, "merged-read");
    reach("timer-again");
}

// ------------------------------------------------------------------------------------- threads
fn go(preemptions: u64, fs: Vec<Box<dyn FnOnce() + Send>>) { explore(preemptions); par(fs) }
type Slot<T> = Arc<Mutex<Option<T>>>;

/// A query while the chunk is swapped sees every point acknowledged before it.
pub fn swap_query() { swap_query_(30) }
fn swap_query_(preemptions: u64) {
    let (db, log) = on_kv(LONG);
    let set = vec![l("job", "a")];
    let (s, e) = last(&log);
    let p = (s + u16() as u64, u64());
    check(db.write_time_point(labels(&set), tp(p)).is_ok(), "in-range-refused");
    let ans: Slot<Option<Vec<(Set, Vec<Pt>)>>> = Slot::default();
    let (d1, d2, a2, q) = (db.clone(), db.clone(), ans.clone(), set.clone());
    go(preemptions, vec![
        Box::new(move || check(d1.verif_swap(e + 1).is_ok(), "swap-failed")),
        Box::new(move || { let r = ask(&d2, &q, 0, u64::MAX); *a2.lock().unwrap() = Some(r) }),
    ]);
    let r = ans.lock().unwrap().take();
    match r.and_then(|x| x) {
        Some(got) => series(got, &[(set.clone(), vec![p])], "query-during-swap"),
        None => check(false, "query-error"),
    }
    expect(&db, &[(set.clone(), vec![p])], &set, 0, u64::MAX, "query-after-swap");
    reach("swapped");
}
/// A write while the chunk is swapped: acknowledged, it is found; refused, it is not.
pub fn swap_write() { swap_write_(30) }
fn swap_write_(preemptions: u64) {
    let (db, log) = on_kv(LONG);
    let set = vec![l("job", "a")];
    let (s, e) = last(&log);
    let p = (if boolean() { s } else { e + 1 } + u16() as u64, u64());
    let batch = boolean();
    let ok: Slot<bool> = Slot::default();
    let (d1, d2, o2, q) = (db.clone(), db.clone(), ok.clone(), set.clone());
    go(preemptions, vec![
        Box::new(move || check(d1.verif_swap(e + 1).is_ok(), "swap-failed")),
        Box::new(move || { let r = if batch { d2.write_time_points(labels(&q), vec![tp(p)]).is_ok() } else { d2.write_time_point(labels(&q), tp(p)).is_ok() }; *o2.lock().unwrap() = Some(r) }),
    ]);
    let acked = ok.lock().unwrap().take().unwrap_or(false);
    if batch {
        // a batch leaves out what is not in the chunk's range
        check(acked, "batch-acknowledgement");
        match ask(&db, &set, 0, u64::MAX) { Some(got) => { if got.len() > 0 { series(got, &[(set, vec![p])], "write-during-swap") } } None => check(false, "query-error") }
    } else {
        expect(&db, &[(set.clone(), if acked { vec![p] } else { vec![] })], &set, 0, u64::MAX, "write-during-swap");
    }
    reach(if acked { "acked" } else { "refused" });
}
/// Writer, reader and swap at once.
pub fn swap_write_query() { swap_write_query_(2) }
pub fn swap_write_query_deep() { swap_write_query_(3) }
fn swap_write_query_(preemptions: u64) {
    let (db, log) = on_kv(LONG);
    let set = vec![l("job", "a")];
    let (s, e) = last(&log);
    let p = (s + 10, u64());
    let r = (e + 1 + 10, u64());
    check(db.write_time_point(labels(&set), tp(p)).is_ok(), "in-range-refused");
    let ok: Slot<bool> = Slot::default();
    let ans: Slot<Option<Vec<(Set, Vec<Pt>)>>> = Slot::default();
    let (d1, d2, d3, o2, a3, q2, q3) = (db.clone(), db.clone(), db.clone(), ok.clone(), ans.clone(), set.clone(), set.clone());
    go(preemptions, vec![
        Box::new(move || check(d1.verif_swap(e + 1).is_ok(), "swap-failed")),
        Box::new(move || { let x = d2.write_time_point(labels(&q2), tp(r)).is_ok(); *o2.lock().unwrap() = Some(x) }),
        Box::new(move || { let x = ask(&d3, &q3, 0, u64::MAX); *a3.lock().unwrap() = Some(x) }),
    ]);
    let acked = ok.lock().unwrap().take().unwrap_or(false);
    match ans.lock().unwrap().take().and_then(|x| x) {
        Some(got) => {
            let n: usize = got.iter().map(|g| g.1.len()).sum();
            let want = if n > 1 { vec![p, r] } else { vec![p] };
            check(n < 2 || acked, "refused-point-read");
            series(got, &[(set.clone(), want)], "query-during-swap");
        }
        None => check(false, "query-error"),
    }
    expect(&db, &[(set.clone(), if acked { vec![p, r] } else { vec![p] })], &set, 0, u64::MAX, "write-during-swap");
    reach(if acked { "acked" } else { "refused" });
}
/// Two writers, same or overlapping new series.
pub fn write_write() { write_write_(4) }
pub fn write_write_deep() { write_write_(30) }
fn write_write_(preemptions: u64) {
    let (db, log) = on_kv(LONG);
    let (s, _) = last(&log);
    let x = vec![l("job", "a"), l("host", "x")];
    let (y, same_set, old) = match choose(5) { 0 => (x.clone(), true, false), 1 => (vec![x[1].clone(), x[0].clone()], true, false), 2 => (vec![l("job", "a")], false, false), 3 => (x.clone(), true, true), _ => (vec![l("job", "a")], false, true) };
    // a series there before, or none
    let z = (s, u64());
    if old { check(db.write_time_point(labels(&x), tp(z)).is_ok(), "in-range-refused") }
    let (p, r) = ((s + 1 + u16() as u64, u64()), (s + 1 + u16() as u64, u64()));
    let (o1, o2): (Slot<bool>, Slot<bool>) = (Slot::default(), Slot::default());
    let (d1, d2, k1, k2, x1, y2) = (db.clone(), db.clone(), o1.clone(), o2.clone(), x.clone(), y.clone());
    go(preemptions, vec![
        Box::new(move || { let v = d1.write_time_point(labels(&x1), tp(p)).is_ok(); *k1.lock().unwrap() = Some(v) }),
        Box::new(move || { let v = d2.write_time_point(labels(&y2), tp(r)).is_ok(); *k2.lock().unwrap() = Some(v) }),
    ]);
    let (a, b) = (o1.lock().unwrap().take().unwrap_or(false), o2.lock().unwrap().take().unwrap_or(false));
    check(a || b, "both-refused");
    let want: Vec<(Set, Vec<Pt>)> = if same_set {
        if !(a && b) { check(p.0 == r.0 || (a && r.0 < p.0) || (b && p.0 < r.0), "in-range-refused") }
        let mut v = if old { vec![z] } else { vec![] };
        if a { put(&mut v, p) }
        if b { put(&mut v, r) }
        vec![(x, v)]
    } else {
        check(a && b, "in-range-refused");
        vec![(x, if old { vec![z, p] } else { vec![p] }), (y, vec![r])]
    };
    expect(&db, &want, &vec![l("job", "a")], 0, u64::MAX, "concurrent-writes-read");
    reach("two-writers");
}
/// A query while a series is begun and continued: a prefix of it, never an error.
pub fn write_query() { write_query_(4) }
pub fn write_query_deep() { write_query_(30) }
fn write_query_(preemptions: u64) {
    let (db, log) = on_kv(LONG);
    let (s, _) = last(&log);
    let x = vec![l("job", "a")];
    let (p, r) = ((s + 1, u64()), (s + 2, u64()));
    let old = boolean();
    if old { check(db.write_time_point(labels(&x), tp((s, 0))).is_ok(), "in-range-refused") }
    let ans: Slot<Option<Vec<(Set, Vec<Pt>)>>> = Slot::default();
    let (d1, d2, a2, x1, x2) = (db.clone(), db.clone(), ans.clone(), x.clone(), x.clone());
    go(preemptions, vec![
        Box::new(move || { for v in [p, r] { check(d1.write_time_point(labels(&x1), tp(v)).is_ok(), "in-range-refused") } }),
        Box::new(move || { let v = ask(&d2, &x2, 0, u64::MAX); *a2.lock().unwrap() = Some(v) }),
    ]);
    let mut all = if old { vec![(s, 0)] } else { vec![] };
    all.extend([p, r]);
    match ans.lock().unwrap().take().and_then(|x| x) {
        Some(got) => {
            let n: usize = got.iter().map(|g| g.1.len()).sum();
            check(n <= all.len() && n >= old as usize, "query-during-write");
            if n <= all.len() { series(got, &[(x.clone(), all[..n].to_vec())], "query-during-write") }
            reach(if n == all.len() { "read-all" } else { "read-part" });
        }
        None => check(false, "query-error"),
    }
    expect(&db, &[(x.clone(), all)], &x, 0, u64::MAX, "concurrent-writes-read");
}

/// Two writers and a reader; the writers' labels are one set, or overlap.
pub fn three() { three_(1) }
pub fn three_deep() { three_(2) }
fn three_(preemptions: u64) {
    let (db, log) = on_kv(LONG);
    let (s, _) = last(&log);
    let x = vec![l("job", "a"), l("host", "x")];
    let y = if boolean() { x.clone() } else { vec![l("job", "a")] };
    let (p, r) = ((s + 1, u64()), (s + 2, u64()));
    let (o1, o2): (Slot<bool>, Slot<bool>) = (Slot::default(), Slot::default());
    let ans: Slot<Option<Vec<(Set, Vec<Pt>)>>> = Slot::default();
    let (d1, d2, d3, k1, k2, a3, x1, y2) = (db.clone(), db.clone(), db.clone(), o1.clone(), o2.clone(), ans.clone(), x.clone(), y.clone());
    go(preemptions, vec![
        Box::new(move || { let v = d1.write_time_point(labels(&x1), tp(p)).is_ok(); *k1.lock().unwrap() = Some(v) }),
        Box::new(move || { let v = d2.write_time_points(labels(&y2), vec![tp(r)]).is_ok(); *k2.lock().unwrap() = Some(v) }),
        Box::new(move || { let v = ask(&d3, &vec![l("job", "a")], 0, u64::MAX); *a3.lock().unwrap() = Some(v) }),
    ]);
    let (a, b) = (o1.lock().unwrap().take().unwrap_or(false), o2.lock().unwrap().take().unwrap_or(false));
    check(b && (a || x == y), "in-range-refused");
    let mut want: Vec<(Set, Vec<Pt>)> = vec![(x.clone(), vec![])];
    if a { put(&mut want[0].1, p) }
    if x == y { if b { put(&mut want[0].1, r) } } else { want.push((y, vec![r])) }
    match ans.lock().unwrap().take().and_then(|x| x) {
        Some(got) => {
            for g in &got {
                match want.iter().find(|w| crate::index::same(&w.0, &g.0)) {
                    Some(w) => for q in &g.1 { check(w.1.iter().any(|x| (x.0 == q.0) & (x.1 == q.1)), "query-during-writes") },
                    None => check(false, "query-during-writes"),
                }
            }
            check(got.len() <= want.len(), "query-during-writes");
        }
        None => check(false, "query-error"),
    }
    expect(&db, &want, &vec![l("job", "a")], 0, u64::MAX, "concurrent-writes-read");
    reach("three");
}

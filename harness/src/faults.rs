//! A backend that fails at any one of its operations; the registry of a shared backend.
use crate::chunk::{ask, l, opts, series, tp, Pt};
use crate::db::{self, Log, OnKv, LONG};
use crate::index::{labels, set_of, Set};
use crate::prim::*;
use crate::server::{post, query, read_rq, snappy, write_rq};
use monolith::chunk::Chunk;
use monolith::indexer::{Indexer, TiKvIndexer};
use monolith::option::ServerOpts;
use monolith::server::MonolithServer;
use monolith::storage::{Storage, TiKvStorage};
use monolith::test_utils::DummyTiKvBackend;
use monolith::verif::TiKvRawBackend;
use monolith::{MonolithDb, MonolithErr, Result};
use protobuf::Message;
use std::sync::{Arc, Mutex};

/// A key-value store whose operations fail from the n-th on, `many` of them, with an error of one kind or another.
#[derive(Clone)]
pub struct Flaky { kv: DummyTiKvBackend, left: Arc<Mutex<Option<(usize, usize)>>>, hit: Arc<Mutex<bool>>, other: Arc<Mutex<bool>> }
impl Flaky {
    pub fn new() -> Flaky { Flaky { kv: DummyTiKvBackend::new(), left: Default::default(), hit: Default::default(), other: Default::default() } }
    pub fn arm(&self, n: usize, many: usize) { *self.other.lock().unwrap() = boolean(); *self.left.lock().unwrap() = Some((n, many)); *self.hit.lock().unwrap() = false }
    /// Ends the fault; true if it came to it.
    pub fn mend(&self) -> bool { *self.left.lock().unwrap() = None; *self.hit.lock().unwrap() }
    fn step(&self) -> Result<()> {
        let mut g = self.left.lock().unwrap();
        match *g {
            Some((0, 0)) | None => Ok(()),
            Some((0, m)) => { *g = Some((0, m - 1)); *self.hit.lock().unwrap() = true; Err(if *self.other.lock().unwrap() { MonolithErr::IoError("backend is away".to_string()) } else { MonolithErr::InternalErr("backend is away".to_string()) }) }
            Some((n, m)) => { *g = Some((n - 1, m)); Ok(()) }
        }
    }
}
impl TiKvRawBackend for Flaky {
    fn set(&self, k: Vec<u8>, v: Vec<u8>) -> Result<()> { self.step()?; self.kv.set(k, v) }
    fn get(&self, k: Vec<u8>) -> Result<Option<Vec<u8>>> { self.step()?; self.kv.get(k) }
}
fn parts(b: &Flaky, id: u8) -> (TiKvStorage, TiKvIndexer) {
    (TiKvStorage::verif_new(Box::new(b.clone()), vec![1; 16], vec![id; 16]), TiKvIndexer::verif_new(Box::new(b.clone()), vec![1; 16], vec![id + 1; 16]))
}
const MANY: usize = 1000;

/// A point is acknowledged only if it is there; one that was not can be written again; others are untouched.
pub fn insert() {
    let b = Flaky::new();
    let (st, ix) = parts(&b, 1);
    let c = Chunk::new(st, ix, &opts(0, 1 << 40));
    let sets: Vec<Set> = vec![vec![l("job", "a"), l("host", "x")], vec![l("job", "a")], vec![l("job", "b"), l("host", "x")]];
    let mut all: Vec<(Set, Vec<Pt>)> = sets.iter().map(|s| (s.clone(), vec![])).collect();
    // a series there before, or none
    if boolean() { let p = (1, u64()); check(c.insert(labels(&sets[1]), tp(p)).is_ok(), "in-range-refused"); all[1].1.push(p) }
    let k = choose(2);
    let p = (10 + u8() as u64, u64());
    let many = pick(&[1usize, 2, MANY]);
    b.arm(choose(10), many);
    let ok = c.insert(labels(&sets[k]), tp(p)).is_ok();
    let hit = b.mend();
    check(ok || hit, "in-range-refused");
    reach(if ok { "acknowledged" } else { "failed" });
    if !ok {
        // what was refused is not read, what was there is
        for s in &sets { let q = s.clone(); one(&c, &all, &q, "after-failed-write") }
        if boolean() { let r = (500, u64()); check(c.insert(labels(&sets[2]), tp(r)).is_ok(), "write-after-failure"); all[2].1.push(r) }
        check(c.insert(labels(&sets[k]), tp(p)).is_ok(), "retry-refused");
    }
    all[k].1.push(p);
    for q in [vec![l("job", "a")], vec![l("host", "x")], sets[k].clone()] { one(&c, &all, &q, "after-failed-write") }
    // each is a series of its own still
    let r = (5000, u64());
    check(c.insert(labels(&sets[1 - k]), tp(r)).is_ok(), "write-after-failure");
    all[1 - k].1.push(r);
    one(&c, &all, &vec![l("job", "a")], "after-failed-write");
}
fn one<S: Storage, I: Indexer>(c: &Chunk<S, I>, all: &[(Set, Vec<Pt>)], q: &Set, id: &str) {
    let want: Vec<(Set, Vec<Pt>)> = all.iter().filter(|s| crate::chunk::matches(&s.0, q)).cloned().collect();
    match ask(c, q, 0, u64::MAX) { Some(got) => series(got, &want, id), None => check(false, "query-error") }
}
/// A query while the backend fails: the whole answer or an error.
pub fn chunk_query() {
    let b = Flaky::new();
    let (st, ix) = parts(&b, 1);
    let c = Chunk::new(st, ix, &opts(0, 1 << 40));
    let sets: Vec<Set> = vec![vec![l("job", "a"), l("host", "x")], vec![l("job", "a")]];
    let all: Vec<(Set, Vec<Pt>)> = sets.iter().map(|s| (s.clone(), vec![(1 + u8() as u64, u64())])).collect();
    for (s, p) in &all { check(c.insert(labels(s), tp(p[0])).is_ok(), "in-range-refused") }
    let q = if boolean() { vec![l("job", "a")] } else { sets[0].clone() };
    b.arm(choose(9), pick(&[1usize, MANY]));
    let r = c.query(labels(&q), 0, u64::MAX);
    let hit = b.mend();
    match r {
        Ok(v) => { let want: Vec<(Set, Vec<Pt>)> = all.iter().filter(|s| crate::chunk::matches(&s.0, &q)).cloned().collect();
            series(v.iter().map(|t| (set_of(t.meta_data()), crate::chunk::points(t.time_points()))).collect(), &want, "partial-answer"); reach("answered") }
        Err(_) => { check(hit, "query-error"); reach("query-failed") }
    }
    one(&c, &all, &q, "after-failed-query");
}
/// A query over several chunks while the backend fails: the whole answer or an error.
pub fn db_query() {
    let b = Flaky::new();
    let log = Log::default();
    let d = match MonolithDb::<TiKvStorage, TiKvIndexer>::new(db::options(LONG), Box::new(OnKv::on({ let b = b.clone(); move || Box::new(b.clone()) }, log.clone(), 1)), Box::new(OnKv::on({ let b = b.clone(); move || Box::new(b.clone()) }, Log::default(), 2))) { Ok(d) => d, Err(_) => { check(false, "open-failed"); return } };
    std::thread::sleep(std::time::Duration::from_millis(1));
    let sets: Vec<Set> = vec![vec![l("job", "a"), l("host", "x")], vec![l("job", "a")]];
    let mut all: Vec<(Set, Vec<Pt>)> = sets.iter().map(|s| (s.clone(), vec![])).collect();
    for i in 0..3usize {
        if i > 0 { check(d.verif_swap(db::last(&log).1 + 1).is_ok(), "swap-failed") }
        for k in 0..2 {
            if i == 1 && k == 1 { continue }
            let p = (db::last(&log).0 + k as u64, u64());
            check(d.write_time_point(labels(&sets[k]), tp(p)).is_ok(), "in-range-refused");
            all[k].1.push(p);
        }
    }
    b.arm(choose(24), pick(&[1usize, MANY]));
    let srv = MonolithServer::new(ServerOpts::default(), d.clone());
    let r = if boolean() { db::ask(&*d, &vec![l("job", "a")], 0, u64::MAX) } else {
        srv.query(read_rq(vec![query(&vec![l("job", "a")], 0, i64::max_value())])).ok().map(|r| crate::server::results(&r).remove(0))
    };
    let hit = b.mend();
    match r {
        Some(got) => { series(got, &all, "partial-answer"); reach("answered") }
        None => { check(hit, "query-error"); reach("query-failed") }
    }
    db::expect(&d, &all, &vec![l("job", "a")], 0, u64::MAX, "after-failed-query");
}
/// The index on its own: what it says it made is found, what it could not read it does not deny.
pub fn index() {
    let b = Flaky::new();
    let (_, ix) = parts(&b, 1);
    let (x, y): (Set, Set) = (vec![l("k", "v")], vec![l("k", "v"), l("n", "w")]);
    check(ix.create_index(labels(&x), 1).is_ok(), "create-index-refused");
    b.arm(choose(8), pick(&[1usize, MANY]));
    let made = ix.create_index(labels(&y), 2).is_ok();
    let hit = b.mend();
    check(made || hit, "create-index-refused");
    if made {
        check(matches!(ix.get_series_id_by_labels(labels(&y)), Ok(Some(2))), "made-index-missing");
        check(matches!(ix.get_series_id_contains_labels(labels(&y)), Ok(ref v) if v[..] == [2]), "made-index-missing");
        check(matches!(ix.get_series_id_contains_labels(labels(&x)), Ok(ref v) if v[..] == [1, 2]), "made-index-missing");
        reach("made");
    } else { reach("not-made") }
    b.arm(choose(4), pick(&[1usize, MANY]));
    match choose(3) {
        0 => { let r = ix.get_series_id_by_labels(labels(&x)); if b.mend() { check(r.is_err(), "failed-lookup-answered") } else { check(matches!(r, Ok(Some(1))), "lookup") } }
        1 => { let r = ix.get_series_id_contains_labels(labels(&x)); if b.mend() { check(r.is_err(), "failed-lookup-answered") } else { check(matches!(r, Ok(ref v) if v[0] == 1), "lookup") } }
        _ => { let r = ix.get_series_metadata_contains_labels(labels(&x)); if b.mend() { check(r.is_err(), "failed-lookup-answered") } else { check(matches!(r, Ok(ref v) if v[0].0 == 1) || !made, "lookup") } }
    }
}
/// The storage on its own.
pub fn storage() {
    let b = Flaky::new();
    let (st, _) = parts(&b, 1);
    let id = u64();
    let n = choose(2);
    let mut all: Vec<Pt> = vec![];
    for i in 0..n { let p = (i as u64, u64()); check(st.write_time_point(id, p.0, f64::from_bits(p.1)).is_ok(), "write-refused"); all.push(p) }
    let p = (100, u64());
    b.arm(choose(3), pick(&[1usize, MANY]));
    let ok = st.write_time_point(id, p.0, f64::from_bits(p.1)).is_ok();
    check(ok || b.mend(), "write-refused");
    if ok { all.push(p) }
    b.arm(choose(3), pick(&[1usize, MANY]));
    match st.read_time_series(id, 0, u64::MAX) {
        Ok(v) => { check(crate::chunk::points(&v) == all, "failed-write-acknowledged"); reach("read") }
        Err(MonolithErr::NotFoundErr) | Err(MonolithErr::OutOfRangeErr(_, _)) => check(all.is_empty() && !b.mend(), "failed-read-denied"),
        Err(_) => { check(b.mend(), "read-error"); reach("read-failed") }
    }
}
/// Requests while the backend fails: an error status, or done.
pub fn server() {
    let b = Flaky::new();
    let log = Log::default();
    let k = |id| { let b = b.clone(); OnKv::on(move || Box::new(b.clone()), log.clone(), id) };
    let dbm = match MonolithDb::<TiKvStorage, TiKvIndexer>::new(db::options(LONG), Box::new(k(1)), Box::new(OnKv::on({ let b = b.clone(); move || Box::new(b.clone()) }, Log::default(), 2))) { Ok(d) => d, Err(_) => { check(false, "open-failed"); return } };
    std::thread::sleep(std::time::Duration::from_millis(1));
    let srv = MonolithServer::new(ServerOpts::default(), dbm.clone());
    let t = db::last(&log).0;
    let (x, y) = (vec![l("job", "a")], vec![l("job", "a"), l("host", "x")]);
    let all = vec![(x.clone(), vec![(t, 1), (t + 1, 2)]), (y, vec![(t, 3)])];
    let body = snappy(&write_rq(&all).write_to_bytes().unwrap());
    let fail_write = boolean();
    if fail_write { b.arm(choose(50), pick(&[1usize, MANY])) }
    let code = post(&srv, "/write", body.clone()).map(|x| x.0).unwrap_or(0);
    let hit = b.mend();
    check(code == 200 || (hit && code >= 400 && code < 600), "write-status");
    if code == 200 { db::expect(&dbm, &all, &x, 0, u64::MAX, "failed-write-acknowledged"); reach("written") } else { reach("not-written"); return }
    if fail_write { return }
    b.arm(choose(20), pick(&[1usize, MANY]));
    let r = post(&srv, "/read", snappy(&read_rq(vec![query(&x, 0, i64::max_value())]).write_to_bytes().unwrap()));
    let hit = b.mend();
    match r {
        Some((200, body)) => match crate::server::decode(&body) { Some(r) => { let r = crate::server::results(&r); check(r.len() == 1, "results-count"); series(r[0].clone(), &all, "partial-answer"); reach("answered") } None => check(false, "read-body") },
        Some((c, _)) => { check(hit && c >= 400 && c < 600, "read-status"); reach("not-answered") }
        None => check(false, "read-unanswered"),
    }
}

/// The registry says which parts belong to a chunk: each part's number in its half, the other half kept.
pub fn registry() {
    let b = DummyTiKvBackend::new();
    let key = vecn(1 + choose(3));
    let other = vecn(1 + choose(2));
    assume(key != other);
    let before = vecn(32);
    if boolean() { check(b.set(other.clone(), before.clone()).is_ok(), "registry-refused") }
    let kept = b.get(other.clone()).ok().and_then(|x| x);
    let mut want = vec![0u8; 32];
    if boolean() { check(b.set(key.clone(), before.clone()).is_ok(), "registry-refused"); want = before }
    let mut ids: Vec<Vec<u8>> = vec![];
    for _ in 0..1 + choose(3) {
        let ix = boolean();
        match b.init_component(key.clone(), ix) {
            Ok(id) => {
                check(id.len() == 16, "component-id");
                check(id.iter().any(|x| *x != 0) && !ids.contains(&id), "component-id");
                if id.len() == 16 { want[if ix { 0 } else { 16 }..][..16].copy_from_slice(&id) }
                ids.push(id);
            }
            Err(_) => check(false, "registry-refused"),
        }
        check(matches!(b.get(key.clone()), Ok(Some(ref v)) if *v == want), "registry-entry");
    }
    check(b.get(other).ok().and_then(|x| x) == kept, "registry-other");
    reach("registered");
}
/// A registration that failed is reported.
pub fn registry_fault() {
    let b = Flaky::new();
    let key = vec![3; 16];
    let pre = boolean();
    if pre { check(b.init_component(key.clone(), true).is_ok(), "registry-refused") }
    let before = b.get(key.clone()).ok().and_then(|x| x);
    b.arm(choose(3), pick(&[1usize, MANY]));
    let r = b.init_component(key.clone(), boolean());
    let hit = b.mend();
    check(r.is_err() == hit, "failed-registration-acknowledged");
    if hit { check(b.get(key).ok().and_then(|x| x) == before, "failed-registration-stored"); reach("failed") } else { reach("registered") }
}

/// Makes parts as OnKv does, but not the n-th time.
pub struct Balky<T> { made: T, left: Arc<Mutex<Option<usize>>> }
impl<T> Balky<T> {
    pub fn new(made: T, left: &Arc<Mutex<Option<usize>>>) -> Balky<T> { Balky { made, left: left.clone() } }
    fn step(&self) -> Result<()> {
        let mut g = self.left.lock().unwrap();
        match *g {
            None => Ok(()),
            Some(0) => { *g = None; Err(MonolithErr::InternalErr("cannot be made".to_string())) }
            Some(n) => { *g = Some(n - 1); Ok(()) }
        }
    }
}
impl<P, T: monolith::Builder<P>> monolith::Builder<P> for Balky<T> {
    fn build(&self, d: String, o: Option<&monolith::chunk::ChunkOpts>, b: Option<&monolith::option::DbOpts>) -> Result<P> { self.step()?; self.made.build(d, o, b) }
    fn write_to_chunk(&self, d: &std::path::Path) -> Result<()> { self.step()?; self.made.write_to_chunk(d) }
    fn read_from_chunk(&self, d: &std::path::Path, o: Option<&monolith::chunk::ChunkOpts>) -> Result<Option<P>> { self.made.read_from_chunk(d, o) }
    fn write_config(&self, d: &std::path::Path) -> Result<()> { self.made.write_config(d) }
    fn read_config(&self, d: &std::path::Path) -> Result<()> { self.made.read_config(d) }
}
/// A swap that fails leaves the chunk that is there in use, and can be repeated.
pub fn swap() {
    let kv = crate::db::Kv(DummyTiKvBackend::new());
    let (log, left) = (Log::default(), Arc::new(Mutex::new(None)));
    let made = db::MonolithDbOnKv::new(db::options(LONG),
        Box::new(Balky { made: OnKv::fresh(kv.clone(), log.clone(), 1), left: left.clone() }), Box::new(Balky { made: OnKv::fresh(kv, Log::default(), 2), left: left.clone() }));
    let d = match made { Ok(d) => d, Err(_) => { check(false, "open-failed"); return } };
    std::thread::sleep(std::time::Duration::from_millis(1));
    let set = vec![l("job", "a")];
    let (s, e) = db::last(&log);
    let mut all = vec![(set.clone(), vec![])];
    let mut write = |all: &mut Vec<(Set, Vec<Pt>)>, t: u64| { let p = (t, u64()); check(d.write_time_point(labels(&set), tp(p)).is_ok(), "write-after-failed-swap"); all[0].1.push(p) };
    write(&mut all, s);
    let n = choose(6);
    *left.lock().unwrap() = Some(n);
    let ok = d.verif_swap(e + 1).is_ok();
    let hit = left.lock().unwrap().take().is_none();
    check(ok != hit, "failed-swap-reported");
    db::expect(&d, &all, &set, 0, u64::MAX, "read-after-failed-swap");
    if ok { write(&mut all, e + 5); reach("swapped"); return }
    write(&mut all, s + 1);
    db::expect(&d, &all, &set, 0, u64::MAX, "read-after-failed-swap");
    check(d.verif_swap(e + 2).is_ok(), "swap-after-failed-swap");
    write(&mut all, e + 9);
    db::expect(&d, &all, &set, 0, u64::MAX, "read-after-failed-swap");
    reach("not-swapped");
}

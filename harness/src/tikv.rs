//! Databases on a TiKV cluster, through the project's own client, builders and configuration.
#![allow(unused_imports, dead_code)]
#[cfg(feature = "tikv")]
mod real {
    use crate::chunk::{l, put, tp, Pt};
    use crate::db::{db_dir, expect, options, ranges, LONG};
    use crate::index::{labels, Set};
    use crate::prim::*;
    use monolith::indexer::{Indexer, SledIndexer, SledIndexerBuilder, TiKvIndexer, TiKvIndexerBuilder};
    use monolith::storage::{SledStorage, SledStorageBuilder, Storage, TiKvStorage, TiKvStorageBuilder};
    use monolith::{MonolithDb, TiKvRawBackendSingleton};
    use std::sync::Arc;
    use std::time::Duration;
    use tikv_client::Config;

    type Kv = MonolithDb<TiKvStorage, TiKvIndexer>;
    fn cluster(name: &str) -> TiKvRawBackendSingleton { match TiKvRawBackendSingleton::new(Config::new(vec![name])) { Ok(c) => c, Err(_) => { check(false, "client-refused"); unreachable!() } } }
    fn sets() -> Vec<Set> { vec![vec![l("job", "a"), l("host", "x")], vec![l("job", "a")]] }
    fn rest() { std::thread::sleep(Duration::from_millis(5)) }
    fn in_dir(name: &str) -> monolith::option::DbOpts { let mut o = options(LONG); o.base_dir = db_dir().join(name); std::fs::create_dir_all(&o.base_dir).unwrap(); o }
    fn kv(name: &str, c: &TiKvRawBackendSingleton) -> Option<Arc<Kv>> {
        let (s, i) = (TiKvStorageBuilder::new(c.clone()).ok()?, TiKvIndexerBuilder::new(c.clone()).ok()?);
        let d = Kv::new(in_dir(name), Box::new(s), Box::new(i)).ok();
        rest();
        d
    }
    fn span(name: &str) -> Vec<(u64, u64)> {
        let mut v: Vec<(u64, u64)> = std::fs::read_dir(db_dir().join(name)).unwrap().filter_map(|d| u128::from_str_radix(&d.unwrap().file_name().to_string_lossy(), 16).ok()).map(|x| ((x >> 64) as u64, x as u64)).collect();
        v.sort();
        v
    }

    /// One life after another, for each pair of backends of which one is TiKV at least.
    fn lives<S, I, F>(make: F)
    where S: Storage + Send + Sync + 'static, I: Indexer + Send + Sync + 'static, F: Fn() -> Option<Arc<MonolithDb<S, I>>> + Clone {
        let n = 1 + choose(2);
        let (v, x) = ([u64(), u64(), u64()], u16() as u64);
        let m = make.clone();
        phase(move || {
            let db = match m() { Some(d) => d, None => { check(false, "open-failed"); return } };
            let s = ranges()[0].0;
            for i in 0..n {
                let t = s + 100_000 * i as u64;
                if i > 0 { check(db.verif_swap(t).is_ok(), "swap-failed") }
                check(db.write_time_points(labels(&sets()[0]), vec![tp((t, v[i])), tp((t + 1 + x, 5))]).is_ok(), "in-range-refused");
                check(db.write_time_point(labels(&sets()[1]), tp((t + 2, v[2]))).is_ok(), "in-range-refused");
            }
            std::thread::sleep(Duration::from_millis(1500));
        });
        let old = ranges();
        check(old.len() == n, "chunk-directories");
        let s = old[0].0;
        let mut want: Vec<(Set, Vec<Pt>)> = vec![(sets()[0].clone(), vec![]), (sets()[1].clone(), vec![])];
        for i in 0..n {
            let t = s + 100_000 * i as u64;
            want[0].1.extend([(t, v[i]), (t + 1 + x, 5)]);
            want[1].1.push((t + 2, v[2]));
        }
        let db = match make() { Some(d) => d, None => { check(false, "open-failed"); return } };
        expect(&db, &want, &vec![l("job", "a")], 0, u64::MAX, "reopened-read");
        let p = (ranges().last().unwrap().0 + 300_000, u64());
        check(db.write_time_point(labels(&sets()[1]), tp(p)).is_ok(), "in-range-refused");
        want[1].1.push(p);
        let q = if boolean() { vec![l("job", "a")] } else { vec![l("host", "x"), l("job", "a")] };
        let (a, b) = if boolean() { (0, u64::MAX) } else { (u64(), s + 100_001) };
        expect(&db, &want, &q, a, b, "reopened-read");
        reach("second-run");
    }
    pub fn reopen() {
        match choose(3) {
            0 => lives(|| { let c = cluster("pd:1"); let d = Kv::new(options(LONG), Box::new(TiKvStorageBuilder::new(c.clone()).ok()?), Box::new(TiKvIndexerBuilder::new(c).ok()?)).ok(); rest(); d }),
            1 => lives(|| { let d = MonolithDb::<TiKvStorage, SledIndexer>::new(options(LONG), Box::new(TiKvStorageBuilder::new(cluster("pd:1")).ok()?), Box::new(SledIndexerBuilder::new())).ok(); rest(); d }),
            _ => lives(|| { let d = MonolithDb::<SledStorage, TiKvIndexer>::new(options(LONG), Box::new(SledStorageBuilder::new()), Box::new(TiKvIndexerBuilder::new(cluster("pd:1")).ok()?)).ok(); rest(); d }),
        }
    }
    /// Two databases, on one cluster or on two, have nothing of each other, before and after a restart.
    pub fn apart() {
        let (x, y) = ("pd:1", if boolean() { "pd:1" } else { "pd:2" });
        let (v, w) = (u64(), u64());
        let both = boolean();
        phase(move || {
            let (a, b) = match (kv("a", &cluster(x)), kv("b", &cluster(y))) { (Some(a), Some(b)) => (a, b), _ => { check(false, "open-failed"); return } };
            check(a.write_time_point(labels(&sets()[0]), tp((span("a")[0].0 + 500, v))).is_ok(), "in-range-refused");
            expect(&b, &[], &vec![l("job", "a")], 0, u64::MAX, "other-database");
            if both { check(b.write_time_point(labels(&sets()[0]), tp((span("b")[0].0 + 700, w))).is_ok(), "in-range-refused") }
            expect(&a, &[(sets()[0].clone(), vec![(span("a")[0].0 + 500, v)])], &vec![l("job", "a")], 0, u64::MAX, "other-database");
            rest();
        });
        let (s, t) = (span("a")[0].0, span("b")[0].0);
        let (a, b) = match (kv("a", &cluster(x)), kv("b", &cluster(y))) { (Some(a), Some(b)) => (a, b), _ => { check(false, "open-failed"); return } };
        expect(&a, &[(sets()[0].clone(), vec![(s + 500, v)])], &vec![l("job", "a")], 0, u64::MAX, "other-database");
        expect(&b, &[(sets()[0].clone(), if both { vec![(t + 700, w)] } else { vec![] })], &vec![l("job", "a")], 0, u64::MAX, "other-database");
        reach("two-databases");
    }
    /// A cluster that is away while a database is opened: an error, and no harm, or all is there.
    pub fn opening() {
        let v = u64();
        let used = boolean();
        if used { phase(move || {
            let a = match kv("a", &cluster("pd:1")) { Some(a) => a, None => { check(false, "open-failed"); return } };
            check(a.write_time_point(labels(&sets()[0]), tp((span("a")[0].0 + 5, v))).is_ok(), "in-range-refused");
            rest();
        }) }
        let want: Vec<(Set, Vec<Pt>)> = if used { vec![(sets()[0].clone(), vec![(span("a")[0].0 + 5, v)])] } else { vec![] };
        let (n, many) = (choose(14), pick(&[1usize, 1000]));
        tikv_client::arm(n, many);
        let a = kv("a", &cluster("pd:1"));
        let hit = tikv_client::mend();
        check(a.is_some() || hit, "open-failed");
        let a = match a {
            Some(a) => a,
            None => { reach("refused"); match kv("a", &cluster("pd:1")) { Some(a) => a, None => { check(false, "open-failed"); return } } }
        };
        expect(&a, &want, &vec![l("job", "a")], 0, u64::MAX, "reopened-read");
        let p = (span("a").last().unwrap().0 + 90, u64());
        check(a.write_time_point(labels(&sets()[1]), tp(p)).is_ok(), "in-range-refused");
        let mut want = want;
        want.push((sets()[1].clone(), vec![p]));
        expect(&a, &want, &vec![l("job", "a")], 0, u64::MAX, "reopened-read");
        reach("opened");
    }
    /// A cluster that is away for a while during use: what is acknowledged is there, what is answered is whole.
    pub fn away() {
        let a = match kv("a", &cluster("pd:1")) { Some(a) => a, None => { check(false, "open-failed"); return } };
        let s = span("a")[0].0;
        let set = sets()[0].clone();
        let mut all = vec![(set.clone(), vec![(s, u64())])];
        check(a.write_time_point(labels(&set), tp(all[0].1[0])).is_ok(), "in-range-refused");
        let (n, many) = (choose(8), pick(&[1usize, 1000]));
        tikv_client::arm(n, many);
        match choose(3) {
            0 => {
                let p = (s + 9, u64());
                let ok = if boolean() { a.write_time_point(labels(&set), tp(p)).is_ok() } else { a.write_time_points(labels(&set), vec![tp(p)]).is_ok() };
                check(tikv_client::mend() || ok, "in-range-refused");
                if ok { all[0].1.push(p) }
            }
            1 => {
                let r = crate::db::ask(&a, &set, 0, u64::MAX);
                let hit = tikv_client::mend();
                check(r.is_some() || hit, "query-failed");
                if let Some(r) = r { crate::chunk::series(r, &all, "partial-answer") }
            }
            _ => {
                let t = s + 400_000;
                let ok = a.verif_swap(t).is_ok();
                check(tikv_client::mend() || ok, "swap-failed");
                let p = (if ok { t + 1 } else { s + 9 }, u64());
                check(a.write_time_point(labels(&set), tp(p)).is_ok(), "write-after-failure");
                all[0].1.push(p);
            }
        }
        expect(&a, &all, &vec![l("job", "a")], 0, u64::MAX, "after-failure");
        reach("after-failure");
    }
    /// A configuration file says whether there is a cluster, and which.
    pub fn config() {
        let d = dir("cfg");
        std::fs::create_dir_all(&d).unwrap();
        let f = d.join("tikv.yaml");
        let (text, dry, name) = match choose(6) {
            0 => ("pd_endpoints:\n  - pd:1\ndry_run: false\n", false, "pd:1"),
            1 => ("dry_run: false\npd_endpoints: [\"pd:2\"]\n", false, "pd:2"),
            2 => ("pd_endpoints:\n  - pd:1\ndry_run: true\n", true, ""),
            3 => ("dry_run: true\n", true, ""),
            4 => ("pd_endpoints: [\"pd:1\"]\n", true, ""),
            _ => ("dry_run: false\npd_endpoints: []\n", false, ""),
        };
        std::fs::write(&f, text).unwrap();
        let c = match TiKvRawBackendSingleton::from_config_file(&f) { Ok(c) => c, Err(_) => { check(false, "config-refused"); return } };
        let v = u8();
        let b = match c.get_instance() { Ok(b) => b, Err(_) => { check(!dry && name.is_empty(), "client-refused"); reach("no-cluster"); return } };
        check(dry || !name.is_empty(), "client-without-cluster");
        check(b.set(vec![1, 2], vec![v, 3]).is_ok(), "set-refused");
        check(matches!(b.get(vec![1, 2]), Ok(Some(ref x)) if x[..] == [v, 3]), "get");
        check(matches!(b.get(vec![1]), Ok(None)), "get");
        for n in ["pd:1", "pd:2"] {
            let got = cluster(n).get_instance().ok().and_then(|b| b.get(vec![1, 2]).ok());
            check(got == Some(if n == name { Some(vec![v, 3]) } else { None }), "another-cluster");
        }
        reach(if dry { "dry-run" } else { "cluster" });
    }
    /// The program on TiKV: with a cluster it goes on where the run before ended, without it keeps nothing.
    pub fn program() {
        use crate::run::*;
        let d = dir("cfg");
        std::fs::create_dir_all(&d).unwrap();
        let f = d.join("tikv.yaml");
        let (text, dry) = match choose(3) { 0 => ("pd_endpoints: [\"pd:1\"]\ndry_run: false\n", false), 1 => ("dry_run: true\n", true), _ => ("", true) };
        if text != "" { std::fs::write(&f, text).unwrap() }
        let base = base();
        let v = pick(&[0x3ff0_0000_0000_0000u64, 1]);
        if !dry { phase(move || {
            let c = cluster("pd:1");
            let mut o = options(LONG);
            o.base_dir = dir("data");
            let a = match Kv::new(o, Box::new(TiKvStorageBuilder::new(c.clone()).unwrap()), Box::new(TiKvIndexerBuilder::new(c).unwrap())) { Ok(a) => a, Err(_) => { check(false, "open-failed"); return } };
            rest();
            check(a.write_time_point(labels(&vec![l("old", "one")]), tp((chunk().unwrap().0 + 5, v))).is_ok(), "in-range-refused");
            rest();
        }) }
        let old = chunk();
        let (s, i) = if dry { pick(&[("tikv", "tikv"), ("sled", "tikv"), ("tikv", "sled")]) } else { ("tikv", "tikv") };
        let mut a = vec!["--file_dir".to_string(), base, "-s".to_string(), s.to_string(), "-i".to_string(), i.to_string()];
        if text != "" { a.push("--tikv_config".to_string()); a.push(f.display().to_string()) }
        let r = start(&a, 9001);
        check(r == Is::Up, "not-up");
        if r != Is::Up { return }
        if let Some((t, _)) = old { reads(9001, "/read", &vec![l("old", "one")], &[(vec![l("old", "one")], vec![(t + 5, v)])]) }
        works(9001, "/write", "/read");
        reach(if dry { "dry-run" } else { "cluster" });
    }
}
macro_rules! with_tikv { ($($n:ident)*) => { $( pub fn $n() { #[cfg(feature = "tikv")] real::$n() } )* } }
with_tikv! { reopen apart opening away config }
pub fn program() { #[cfg(all(feature = "tikv", feature = "bin"))] real::program() }

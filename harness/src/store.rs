//! Storage: what was written to a series is what a range read gives, in both backends.
use crate::prim::*;
use monolith::storage::{SledStorage, Storage, TiKvStorage};
use monolith::time_point::TimePoint;
use monolith::test_utils::DummyTiKvBackend;
use monolith::MonolithErr;

pub fn sled_at(name: &str) -> SledStorage { SledStorage::new(&dir(name)).unwrap() }
pub fn tikv_on(b: &DummyTiKvBackend, id: u8) -> TiKvStorage { TiKvStorage::verif_new(Box::new(b.clone()), vec![1; 16], vec![id; 16]) }
pub fn tikv() -> TiKvStorage { tikv_on(&DummyTiKvBackend::new(), 7) }

/// The answer must be `want`, in that order; an empty answer may also be given as "not found" / "out of range".
fn answer(r: Result<Vec<TimePoint>, MonolithErr>, want: &[(u64, u64)]) {
    match r {
        Ok(v) => {
            check(v.len() == want.len(), "range-read-count");
            for (p, w) in v.iter().zip(want) {
                check(p.timestamp == w.0, "range-read-timestamp");
                check(p.value.to_bits() == w.1, "range-read-value");
            }
            if want.len() > 0 { reach("read-some") } else { reach("read-none") }
        }
        Err(MonolithErr::NotFoundErr) | Err(MonolithErr::OutOfRangeErr(_, _)) => { check(want.is_empty(), "range-read-refused"); reach("read-none") }
        Err(_) => check(false, "range-read-error"),
    }
}
fn within(all: &[(u64, u64)], s: u64, e: u64) -> Vec<(u64, u64)> { all.iter().cloned().filter(|p| s <= p.0 && p.0 <= e).collect() }

fn increasing<S: Storage>(st: S, max: usize) {
    let n = 1 + choose(max);
    let id = pick(&[0u64, 1, 12, u64::MAX]);
    let mut all: Vec<(u64, u64)> = Vec::new();
    for i in 0..n {
        let (t, v) = (u64(), u64());
        if i > 0 { assume(t > all[i - 1].0) }
        check(st.write_time_point(id, t, f64::from_bits(v)).is_ok(), "ordered-write-refused");
        all.push((t, v));
    }
    let (s, e) = (u64(), u64());
    answer(st.read_time_series(id, s, e), &within(&all, s, e));
}
pub fn sled_range() { increasing(sled_at("st"), 4) }
pub fn tikv_range() { increasing(tikv(), 4) }

/// A long series, one value any, and another series beside it.
fn many<S: Storage>(st: S, n: usize) {
    let (id, other) = pick(&[(1u64, 2u64), (256, 1), (u64::MAX, 0)]);
    let step = pick(&[1u64, 1000, 1 << 33]);
    let base = pick(&[1u64, 1_600_000_000_000]);
    let k = pick(&[0usize, n / 2, n - 1]);
    let v = u64();
    let all: Vec<(u64, u64)> = (0..n).map(|i| (base + i as u64 * step, if i == k { v } else { (i as f64).to_bits() })).collect();
    let mut rest: Vec<(u64, u64)> = vec![];
    for (i, p) in all.iter().enumerate() {
        check(st.write_time_point(id, p.0, f64::from_bits(p.1)).is_ok(), "ordered-write-refused");
        if i % 5 == 0 { let q = (base + i as u64, i as u64); rest.push(q); check(st.write_time_point(other, q.0, f64::from_bits(q.1)).is_ok(), "ordered-write-refused") }
    }
    let (s, e) = if boolean() { (u64(), base + (n as u64 / 2) * step) } else { (base + 3 * step, u64()) };
    answer(st.read_time_series(id, s, e), &within(&all, s, e));
    answer(st.read_time_series(other, 0, u64::MAX), &rest);
}
pub fn sled_many() { many(sled_at("st"), 20) }
pub fn tikv_many() { many(tikv(), 20) }

/// Points in any order of arrival, repeated timestamps included.
pub fn sled_any_order() {
    let st = sled_at("st");
    let n = 2 + choose(2);
    let mut all: Vec<(u64, u64)> = Vec::new();
    for _ in 0..n {
        let (t, v) = (u64(), u64());
        check(st.write_time_point(5, t, f64::from_bits(v)).is_ok(), "write-refused");
        let at = all.iter().position(|p| p.0 > t).unwrap_or(all.len());
        all.insert(at, (t, v));
    }
    let (s, e) = (u64(), u64());
    answer(st.read_time_series(5, s, e), &within(&all, s, e));
    reach("late-points");
}
/// A point not newer than the last is refused or ordered in; either way nothing else changes.
pub fn tikv_any_order() {
    let st = tikv();
    let n = 2 + choose(2);
    let mut all: Vec<(u64, u64)> = Vec::new();
    for _ in 0..n {
        let (t, v) = (u64(), u64());
        match st.write_time_point(5, t, f64::from_bits(v)) {
            Ok(()) => { check(all.last().map_or(true, |l| l.0 < t), "stale-write-acknowledged"); all.push((t, v)) }
            Err(_) => { check(all.last().map_or(false, |l| l.0 >= t), "newer-write-refused"); reach("stale-refused") }
        }
    }
    answer(st.read_time_series(5, 0, u64::MAX), &all);
}
/// Writes to one series never show in, or change, another.
fn isolated<S: Storage>(st: S, a: u64, b: u64) {
    let (t, v) = (u64(), u64());
    let (t2, v2) = (u64(), u64());
    assume(st.write_time_point(a, t, f64::from_bits(v)).is_ok());
    answer(st.read_time_series(b, 0, u64::MAX), &[]);
    check(st.write_time_point(b, t2, f64::from_bits(v2)).is_ok(), "first-write-refused");
    answer(st.read_time_series(a, 0, u64::MAX), &[(t, v)]);
    answer(st.read_time_series(b, 0, u64::MAX), &[(t2, v2)]);
}
pub fn sled_isolated() {
    let ids = [0u64, 1, 10, 11, 100, u64::MAX, u64::MAX - 1];
    let i = choose(ids.len());
    let j = choose(ids.len());
    if i == j { return }
    isolated(sled_at("st"), ids[i], ids[j]);
}
pub fn tikv_isolated() {
    let (a, b) = (u64(), u64());
    assume(a != b);
    isolated(tikv(), a, b);
}
/// Two storages on one shared backend keep to themselves.
pub fn tikv_shared() {
    let b = DummyTiKvBackend::new();
    let (x, y) = (tikv_on(&b, 1), tikv_on(&b, 2));
    let id = u64();
    let (t, v, t2, v2) = (u64(), u64(), u64(), u64());
    check(x.write_time_point(id, t, f64::from_bits(v)).is_ok(), "first-write-refused");
    answer(y.read_time_series(id, 0, u64::MAX), &[]);
    check(y.write_time_point(id, t2, f64::from_bits(v2)).is_ok(), "first-write-refused");
    answer(x.read_time_series(id, 0, u64::MAX), &[(t, v)]);
    answer(y.read_time_series(id, 0, u64::MAX), &[(t2, v2)]);
    // same data through another handle
    let z = tikv_on(&b, 1);
    answer(z.read_time_series(id, 0, u64::MAX), &[(t, v)]);
}
/// Closed and opened again, a sled storage holds what it held, and takes no more writes (it is opened
/// for reading) without saying so.
pub fn sled_reopen() {
    use monolith::storage::SledStorageBuilder;
    use monolith::Builder;
    let n = 1 + choose(2);
    let mut all: Vec<(u64, u64)> = Vec::new();
    {
        let st = sled_at("st");
        for i in 0..n {
            let (t, v) = (u64(), u64());
            if i > 0 { assume(t > all[i - 1].0) }
            check(st.write_time_point(3, t, f64::from_bits(v)).is_ok(), "ordered-write-refused");
            all.push((t, v));
        }
    }
    let st = match SledStorageBuilder::new().read_from_chunk(&dir("st"), None) { Ok(Some(s)) => s, _ => { check(false, "reopen-failed"); return } };
    let (s, e) = (u64(), u64());
    answer(st.read_time_series(3, s, e), &within(&all, s, e));
    let (t, v) = (u64(), u64());
    assume(t > all[n - 1].0);
    let id = pick(&[3u64, 4]);
    let acked = st.write_time_point(id, t, f64::from_bits(v)).is_ok();
    let want: Vec<(u64, u64)> = if acked { if id == 3 { all.push((t, v)); all } else { vec![(t, v)] } } else if id == 3 { all } else { vec![] };
    answer(st.read_time_series(id, 0, u64::MAX), &want);
}

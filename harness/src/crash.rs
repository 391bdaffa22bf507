//! The process dies, or the disk is full, while the database makes its directories and metadata.
use crate::chunk::{l, tp, Pt};
use crate::db::{db_dir, expect, on_sled, ranges, LONG};
use crate::index::{labels, Set};
use crate::life::open;
use crate::prim::*;
use std::time::Duration;

fn set() -> Set { vec![l("job", "a"), l("host", "x")] }
fn rest() { std::thread::sleep(Duration::from_millis(3)) }
/// The store writes to disk every half second.
fn settle() { std::thread::sleep(Duration::from_millis(1500)) }

/// While it is opened: an error or a database; and it can be opened again, all there.
pub fn opening() {
    std::fs::create_dir_all(db_dir()).unwrap();
    let old = boolean();
    let (u, v, w) = (u64(), u64(), u64());
    let mut want: Vec<Pt> = vec![];
    if old {
        phase(move || {
            let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return } };
            check(db.write_time_point(labels(&set()), tp((ranges()[0].0, u))).is_ok(), "in-range-refused");
            settle();
        });
        want.push((ranges()[0].0, u));
        rest();
    }
    let t = trouble(20);
    let went = troubled(move || {
        arm(t);
        let db = on_sled(LONG);
        let hit = calm();
        match db {
            Some(db) => { check(db.write_time_point(labels(&set()), tp((ranges().last().unwrap().0 + 1, v))).is_ok(), "in-range-refused"); settle(); 1 + hit as u8 }
            None => { check(hit, "open-failed"); 0 }
        }
    });
    rest();
    match went {
        Went::Well(0) => reach("refused"),
        Went::Well(_) => {
            want.push((ranges().last().unwrap().0 + 1, v));
            check(!open(1), "other-backend-taken");
            reach("opened");
        }
        Went::Panicked => check(false, "panic-while-opening"),
        Went::Died => reach("died"),
    }
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-after-trouble"); return } };
    let p = (ranges().last().unwrap().0 + 2, w);
    check(db.write_time_point(labels(&set()), tp(p)).is_ok(), "in-range-refused");
    want.push(p);
    expect(&db, &[(set(), want)], &vec![l("job", "a")], 0, u64::MAX, "after-trouble");
}
/// While chunks are swapped: the old chunk stays in use and the swap can be repeated; and all is there again after a restart.
pub fn swapping() {
    std::fs::create_dir_all(db_dir()).unwrap();
    let (u, v, w) = (u64(), u64(), u64());
    let t = trouble(12);
    let went = troubled(move || {
        let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-failed"); return 0 } };
        let s = ranges()[0].0;
        check(db.write_time_point(labels(&set()), tp((s, u))).is_ok(), "in-range-refused");
        settle();
        arm(t);
        let ok = db.verif_swap(s + 1000).is_ok();
        let hit = calm();
        check(ok || hit, "swap-failed");
        if !ok {
            check(db.write_time_point(labels(&set()), tp((s + 1, v))).is_ok(), "old-chunk-out-of-use");
            check(db.verif_swap(s + 1000).is_ok(), "swap-not-repeatable");
        }
        check(db.write_time_point(labels(&set()), tp((s + 1000, w))).is_ok(), "in-range-refused");
        check(db.write_time_point(labels(&set()), tp((s + 2, w))).is_err(), "swap-without-effect");
        settle();
        1 + ok as u8
    });
    rest();
    let s = ranges()[0].0;
    let mut want: Vec<Pt> = vec![(s, u)];
    match went {
        Went::Well(k) => { if k == 1 { want.push((s + 1, v)) } want.push((s + 1000, w)); reach(if k == 1 { "repeated" } else { "swapped" }) }
        Went::Panicked => check(false, "panic-while-swapping"),
        Went::Died => reach("died"),
    }
    let db = match on_sled(LONG) { Some(d) => d, None => { check(false, "open-after-trouble"); return } };
    expect(&db, &[(set(), want)], &vec![l("job", "a")], 0, u64::MAX, "after-trouble");
}

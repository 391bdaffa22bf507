//! The remote read and write endpoints, from request to answer.
use crate::chunk::{l, series, Pt};
use crate::db::{last, on_kv, KvDb, LONG};
use crate::index::Set;
use crate::prim::*;
use monolith::option::ServerOpts;
use monolith::server::MonolithServer;
use monolith::indexer::TiKvIndexer;
use monolith::storage::TiKvStorage;
use monolith::verif::proto::{Label, LabelMatcher, LabelMatcher_Type, Query, ReadRequest, ReadResponse, Sample, TimeSeries, WriteRequest};
use protobuf::{Message, RepeatedField};

pub type Srv = MonolithServer<'static, TiKvStorage, TiKvIndexer>;
pub fn server(db: &KvDb) -> Srv { MonolithServer::new(ServerOpts::default(), db.clone()) }

pub fn write_rq(all: &[(Set, Vec<Pt>)]) -> WriteRequest {
    let mut w = WriteRequest::new();
    w.timeseries = RepeatedField::from_vec(all.iter().map(|(s, p)| {
        let mut t = TimeSeries::new();
        t.labels = RepeatedField::from_vec(s.iter().map(|(k, v)| { let mut l = Label::new(); l.name = k.clone(); l.value = v.clone(); l }).collect());
        t.samples = RepeatedField::from_vec(p.iter().map(|p| { let mut s = Sample::new(); s.timestamp = p.0 as i64; s.value = f64::from_bits(p.1); s }).collect());
        t
    }).collect());
    w
}
pub fn query(m: &Set, s: i64, e: i64) -> Query {
    let mut q = Query::new();
    q.start_timestamp_ms = s;
    q.end_timestamp_ms = e;
    q.matchers = RepeatedField::from_vec(m.iter().map(|(k, v)| { let mut l = LabelMatcher::new(); l.name = k.clone(); l.value = v.clone(); l }).collect());
    q
}
pub fn read_rq(qs: Vec<Query>) -> ReadRequest { let mut r = ReadRequest::new(); r.queries = RepeatedField::from_vec(qs); r }
pub fn results(r: &ReadResponse) -> Vec<Vec<(Set, Vec<Pt>)>> {
    r.results.iter().map(|q| q.timeseries.iter().map(|t| (
        t.labels.iter().map(|l| (l.name.clone(), l.value.clone())).collect(),
        t.samples.iter().map(|s| (s.timestamp as u64, s.value.to_bits())).collect(),
    )).collect()).collect()
}

/// Snappy, literals only.
pub fn snappy(b: &[u8]) -> Vec<u8> {
    let mut v = vec![];
    let mut n = b.len();
    while n >= 128 { v.push(n as u8 | 128); n >>= 7 }
    v.push(n as u8);
    for c in b.chunks(60) { v.push((c.len() as u8 - 1) << 2); v.extend_from_slice(c) }
    v
}
/// Sends one request; the status and body of the answer.  None: no answer, or the handler panicked.
#[cfg(feature = "sym")]
pub fn post(s: &Srv, url: &str, body: Vec<u8>) -> Option<(u16, Vec<u8>)> {
    tiny_http::INBOX.lock().unwrap().push((url.to_string(), body));
    let rq = tiny_http::Server::http("127.0.0.1:0").unwrap().recv().unwrap();
    let s = s.clone();
    catch(move || MonolithServer::verif_process(s, rq))?;
    let mut o = tiny_http::OUTBOX.lock().unwrap();
    check(o.len() <= 1, "answered-twice");
    o.pop()
}
#[cfg(not(feature = "sym"))]
pub fn post(s: &Srv, url: &str, body: Vec<u8>) -> Option<(u16, Vec<u8>)> {
    let h = tiny_http::Server::http("127.0.0.1:0").unwrap();
    let to = h.server_addr();
    let url = url.to_string();
    let c = std::thread::spawn(move || talk(std::net::TcpStream::connect(to).unwrap(), &url, &body));
    let rq = h.recv().unwrap();
    let s = s.clone();
    let ok = catch(move || MonolithServer::verif_process(s, rq));
    drop(h);
    let v = c.join().unwrap();
    ok?;
    v
}
/// A request by hand; the status and body of the answer.
#[cfg(not(feature = "sym"))]
pub fn talk(mut t: std::net::TcpStream, url: &str, body: &[u8]) -> Option<(u16, Vec<u8>)> {
    use std::io::{Read, Write};
    t.set_read_timeout(Some(std::time::Duration::from_secs(20))).unwrap();
    t.write_all(format!("POST {} HTTP/1.1\r\nHost: x\r\nConnection: close\r\nContent-Length: {}\r\n\r\n", url, body.len()).as_bytes()).ok()?;
    t.write_all(&body).ok()?;
    let mut v = vec![];
    let _ = t.read_to_end(&mut v);
    let at = v.windows(4).position(|w| w == b"\r\n\r\n")?;
    let head = String::from_utf8_lossy(&v[..at]).into_owned();
    let code: u16 = head.split(' ').nth(1)?.parse().ok()?;
    let mut b = v[at + 4..].to_vec();
    if head.to_ascii_lowercase().contains("transfer-encoding: chunked") {
        let (mut o, mut i) = (vec![], 0);
        loop {
            let e = i + b[i..].windows(2).position(|w| w == b"\r\n")?;
            let n = usize::from_str_radix(std::str::from_utf8(&b[i..e]).ok()?.trim(), 16).ok()?;
            if n == 0 { break }
            o.extend_from_slice(&b[e + 2..e + 2 + n]);
            i = e + 2 + n + 2;
        }
        b = o;
    }
    Some((code, b))
}
pub fn decode(b: &[u8]) -> Option<ReadResponse> {
    let raw = snap::raw::Decoder::new().decompress_vec(b).ok()?;
    let mut r = ReadResponse::new();
    r.merge_from_bytes(&raw).ok()?;
    Some(r)
}

/// What a write request carries, a read request gets back, one result per query.
pub fn write_read() {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let (s, e) = last(&log);
    let (a, b) = (vec![l("__name__", "up"), l("job", "a")], vec![l("__name__", "up"), l("job", "b")]);
    let n = 1 + choose(2);
    let mut pa: Vec<Pt> = vec![];
    for _ in 0..n { let p = (u64(), u64()); assume(s <= p.0 && p.0 <= e); if let Some(x) = pa.last() { assume(x.0 < p.0) } pa.push(p) }
    let pb = vec![(s + u16() as u64, u64())];
    check(srv.write(write_rq(&[(a.clone(), pa.clone()), (b.clone(), pb.clone())])).is_ok(), "write-refused");
    // (times are signed there, and one before the epoch is as good a limit as any)
    let (qs, qe) = (u64() as i64, u64() as i64);
    let rq = read_rq(vec![
        query(&vec![l("job", "a")], qs, qe),
        query(&vec![l("__name__", "up")], 0, i64::max_value()),
        query(&vec![l("job", "c")], 0, i64::max_value()),
    ]);
    match srv.query(rq) {
        Ok(r) => {
            let r = results(&r);
            check(r.len() == 3, "results-count");
            if r.len() == 3 {
                let w: Vec<Pt> = pa.iter().cloned().filter(|p| qs <= p.0 as i64 && p.0 as i64 <= qe).collect();
                series(r[0].clone(), &[(a.clone(), w)], "read-result");
                series(r[1].clone(), &[(a, pa), (b, pb)], "read-result");
                series(r[2].clone(), &[], "read-result");
                reach("write-read");
            }
        }
        Err(_) => check(false, "read-error"),
    }
}
/// A request of several series, one of them in two pieces, with samples out of range; queries of several labels.
pub fn write_many() {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let (s, e) = last(&log);
    let sets: Vec<Set> = (0..5).map(|i| vec![l("__name__", if i < 3 { "up" } else { "down" }), ("i".to_string(), format!("{}", i)), l("job", if i % 2 == 0 { "a" } else { "b" })]).collect();
    let mut all: Vec<(Set, Vec<Pt>)> = vec![];
    let mut rq: Vec<(Set, Vec<Pt>)> = vec![];
    let x = (u64(), u64());
    assume(x.0 < s || x.0 > e || (x.0 > s + 1000 && x.0 < s + 100_000));
    assume(x.0 < 1 << 63);
    for (i, set) in sets.iter().enumerate() {
        let mut p: Vec<Pt> = vec![(s - 1, 1), (s, i as u64), (s + 1000, 2)];
        if i == 2 { p.push(x) }
        all.push((set.clone(), p.iter().cloned().filter(|p| s <= p.0 && p.0 <= e).collect()));
        rq.push((set.clone(), p));
    }
    // the second again, its labels in another order; and one with no sample in range
    let k = pick(&[1usize, 4]);
    let mut again = sets[k].clone();
    again.swap(0, 2);
    let y = (s + 200_000, u64());
    rq.push((again, vec![y]));
    all[k].1.push(y);
    rq.push((vec![l("job", "a"), l("none", "in")], vec![(s - 5, 1), (s - 3, 1)]));
    rq.push((vec![l("job", "a"), l("no", "sample")], vec![]));
    check(srv.write(write_rq(&rq)).is_ok(), "write-refused");
    let (qs, qe) = (u64() as i64, u64() as i64);
    let ms: Vec<Set> = vec![vec![l("job", "a")], vec![l("job", "b"), l("__name__", "up")], vec![l("i", "2"), l("job", "a"), l("__name__", "up")], vec![l("job", "a")], vec![l("i", "4"), l("__name__", "up")], vec![l("__name__", "down")]];
    let n = ms.len();
    let which = choose(n);
    let lim = |i: usize| if i == which { (qs, qe) } else { (0, i64::max_value()) };
    match srv.query(read_rq(ms.iter().enumerate().map(|(i, m)| query(m, lim(i).0, lim(i).1)).collect())) {
        Ok(r) => {
            let r = results(&r);
            check(r.len() == n, "results-count");
            if r.len() != n { return }
            for (i, got) in r.into_iter().enumerate() {
                let (a, b) = lim(i);
                let w: Vec<(Set, Vec<Pt>)> = all.iter().filter(|x| crate::chunk::matches(&x.0, &ms[i])).map(|(s, p)| (s.clone(), p.iter().cloned().filter(|p| a <= p.0 as i64 && p.0 as i64 <= b).collect())).collect();
                series(got, &w, "read-result");
            }
            reach("many");
        }
        Err(_) => check(false, "read-error"),
    }
}
/// Whatever a label is, empty, long or reserved, it is part of what is written and comes back with it.
pub fn write_labels() {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let (s, _) = last(&log);
    let long = "x".repeat(300);
    let odd = match choose(4) {
        0 => (pick(&["k", "K", "z_1", "__x__", "job2", "jo"]).to_string(), String::new()),
        1 => (pick(&["k", "__k", "__name__", "ünit", "J"]).to_string(), pick(&["a", "A", "0", "true"]).to_string()),
        2 => ("k".to_string(), pick(&[" ", "\n", "a b", " a", "a ", "ü", "{}", "\"", "\\", "=,", "null", ".*"]).to_string()),
        _ => ("k".to_string(), if boolean() { long.clone() } else { format!("{}y", long) }),
    };
    let mut a = vec![l("job", "a"), odd.clone()];
    if boolean() { a.swap(0, 1) }
    let b = vec![l("job", "a")];
    let (pa, pb) = (vec![(s + 1, u64())], vec![(s + 1, u64()), (s + 2, 3)]);
    check(srv.write(write_rq(&[(a.clone(), pa.clone()), (b.clone(), pb.clone())])).is_ok(), "write-refused");
    let mut qs = vec![query(&b, 0, i64::max_value())];
    // (a matcher of nothing is another matter)
    if !odd.1.is_empty() { qs.push(query(&vec![odd], 0, i64::max_value())); qs.push(query(&a, 0, i64::max_value())) }
    let n = qs.len();
    match srv.query(read_rq(qs)) {
        Ok(r) => {
            let r = results(&r);
            check(r.len() == n, "results-count");
            if r.len() != n { return }
            for (i, got) in r.into_iter().enumerate() {
                if i == 0 { series(got, &[(a.clone(), pa.clone()), (b.clone(), pb.clone())], "read-result") } else { series(got, &[(a.clone(), pa.clone())], "read-result") }
            }
            reach("labels");
        }
        Err(_) => check(false, "read-error"),
    }
}
/// The same over HTTP, bodies compressed.
pub fn http() {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let (s, _) = last(&log);
    let a = vec![l("__name__", "up"), l("job", pick(&["a", "b,c=d", "ü"]))];
    let pa = vec![(s + pick(&[0u64, 1, 300]), pick(&[0u64, 0x3ff0_0000_0000_0000, u64::MAX, 0x8000_0000_0000_0001])), (s + 100_000, 7)];
    match post(&srv, "/write", snappy(&write_rq(&[(a.clone(), pa.clone())]).write_to_bytes().unwrap())) {
        Some((code, body)) => { check(code == 200, "write-status"); check(body.is_empty(), "write-body") }
        None => check(false, "write-unanswered"),
    }
    let n = choose(3);
    let qs: Vec<Query> = (0..n).map(|i| query(&a[i..i + 1].to_vec(), 0, i64::max_value())).collect();
    match post(&srv, "/read", snappy(&read_rq(qs).write_to_bytes().unwrap())) {
        Some((code, body)) => {
            if n == 0 { check(code != 200, "empty-request-status"); reach("empty"); return }
            check(code == 200, "read-status");
            match decode(&body) {
                Some(r) => { let r = results(&r); check(r.len() == n, "results-count"); for x in r { series(x, &[(a.clone(), pa.clone())], "read-result") } reach("http") }
                None => check(false, "read-body"),
            }
        }
        None => check(false, "read-unanswered"),
    }
    match post(&srv, pick(&["/", "/other", "/write/x"]), snappy(&[])) { Some((code, _)) => check(code == 404, "unknown-path-status"), None => check(false, "unknown-path-unanswered") }
}

/// A request must be answered, whatever it holds; afterwards the server still works.
fn answered(srv: &Srv, url: &str, body: Vec<u8>) -> u16 {
    match post(srv, url, body) { Some((c, _)) => c, None => { check(false, "request-unanswered"); 0 } }
}
fn alive(srv: &Srv, t: u64) {
    let a = vec![l("zz", "z")];
    let p = vec![(t, 7)];
    check(answered(srv, "/write", snappy(&write_rq(&[(a.clone(), p.clone())]).write_to_bytes().unwrap())) == 200, "server-dead");
    match srv.query(read_rq(vec![query(&a, 0, i64::max_value())])) { Ok(r) => { let r = results(&r); check(r.len() == 1, "server-dead"); series(r[0].clone(), &[(a, p)], "server-dead") } Err(_) => check(false, "server-dead") }
}
/// Arbitrary bytes where the message should be.
pub fn junk_message() { junk(choose(3)) }
pub fn junk_message3() { junk(3) }
fn junk(n: usize) {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let b = vecn(n);
    let url = pick(&["/read", "/write"]);
    let code = answered(&srv, url, snappy(&b));
    check(code == 200 || code == 500, "junk-status");
    if !decodes(url, &b) { check(code == 500, "undecodable-request-acknowledged") }
    reach(if code == 200 { "junk-taken" } else { "junk-refused" });
    alive(&srv, last(&log).0);
}
/// Whether protobuf takes the message.
fn decodes(url: &str, b: &[u8]) -> bool {
    if url == "/read" { ReadRequest::new().merge_from_bytes(b).is_ok() } else { WriteRequest::new().merge_from_bytes(b).is_ok() }
}
/// Arbitrary bytes where the compressed body should be.
pub fn junk_body() {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let n = choose(5);
    let b = vecn(n);
    if n > 0 { assume(b[0] < 6) }
    let url = pick(&["/read", "/write", "/none"]);
    let plain = snap::raw::Decoder::new().decompress_vec(&b).ok();
    let code = answered(&srv, url, b);
    check(code == 200 || code == 500 || code == 404, "junk-status");
    match plain {
        None => check(code != 200, "undecodable-request-acknowledged"),
        Some(m) => if url != "/none" && !decodes(url, &m) { check(code == 500, "undecodable-request-acknowledged") },
    }
    reach(if code == 200 { "junk-taken" } else { "junk-refused" });
    alive(&srv, last(&log).0);
}
/// A good request cut short: not acknowledged, nothing stored.
pub fn cut() {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let (s, _) = last(&log);
    let a = vec![l("job", "a")];
    let m = write_rq(&[(a.clone(), vec![(s + 1, 5)])]).write_to_bytes().unwrap();
    let c = snappy(&m);
    let code = answered(&srv, "/write", c[..choose(c.len())].to_vec());
    check(code == 500, "cut-request-acknowledged");
    match srv.query(read_rq(vec![query(&a, 0, i64::max_value())])) {
        Ok(r) => check(results(&r)[0].is_empty(), "cut-request-stored"),
        Err(_) => check(false, "read-error"),
    }
    reach("cut");
}
/// A good message cut short, then compressed well.
pub fn cut_message() {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let (s, _) = last(&log);
    let (a, p) = (vec![l("job", "a"), l("i", "0")], vec![(s + 1, 5), (s + 2, 6)]);
    let read = boolean();
    if read { check(srv.write(write_rq(&[(a.clone(), p.clone())])).is_ok(), "write-refused") }
    let m = if read { read_rq(vec![query(&a[..1].to_vec(), 0, 7), query(&a, 0, i64::max_value())]).write_to_bytes().unwrap() } else { write_rq(&[(vec![l("job", "b")], vec![(s, 1)]), (a.clone(), p)]).write_to_bytes().unwrap() };
    let b = &m[..choose(m.len())];
    let url = if read { "/read" } else { "/write" };
    let code = answered(&srv, url, snappy(b));
    if !decodes(url, b) {
        check(code == 500, "cut-request-acknowledged");
        if !read { match srv.query(read_rq(vec![query(&a[..1].to_vec(), 0, i64::max_value()), query(&vec![l("job", "b")], 0, i64::max_value())])) {
            Ok(r) => check(results(&r).iter().all(|x| x.is_empty()), "cut-request-stored"),
            Err(_) => check(false, "read-error"),
        } }
        reach("cut");
    } else { check(code == 200 || b.is_empty(), "cut-status") }
}
/// One byte of a good request is any other.
pub fn flip() { flipped(false) }
pub fn flip_read() { flipped(true) }
fn flipped(read: bool) {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let (s, _) = last(&log);
    let mut m = if read { read_rq(vec![query(&vec![l("j", "a")], 0, 5)]).write_to_bytes().unwrap() } else { write_rq(&[(vec![l("j", "a")], vec![(s + 1, 5)])]).write_to_bytes().unwrap() };
    let k = choose(m.len());
    m[k] = u8();
    let url = if read { "/read" } else { "/write" };
    let code = answered(&srv, url, snappy(&m));
    check(code == 200 || code == 500, "junk-status");
    if !decodes(url, &m) { check(code == 500, "undecodable-request-acknowledged") }
    reach(if code == 200 { "junk-taken" } else { "junk-refused" });
    alive(&srv, s);
}
/// A matcher's kind decides what it matches, whatever its value and wherever in the query it stands.
pub fn matchers() {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let (s, _) = last(&log);
    let sets = [vec![l("i", "1"), l("j", "1")], vec![l("i", "1"), l("j", "2")], vec![l("i", "2"), l("j", "1")]];
    let all: Vec<(Set, Vec<Pt>)> = sets.iter().enumerate().map(|(i, x)| (x.clone(), vec![(s, i as u64)])).collect();
    check(srv.write(write_rq(&all)).is_ok(), "write-refused");
    let kinds = [LabelMatcher_Type::EQ, LabelMatcher_Type::NEQ, LabelMatcher_Type::RE, LabelMatcher_Type::NRE];
    // one matcher of any kind, alone, before or after one for equality
    let k = choose(4);
    let at = choose(3);
    let v = if k >= 2 && boolean() { "1|3".to_string() } else { plain(1) };
    let other = ("i".to_string(), "1".to_string());
    let m: Set = match at { 0 => vec![("j".to_string(), v.clone())], 1 => vec![("j".to_string(), v.clone()), other], _ => vec![other, ("j".to_string(), v.clone())] };
    let mut q = query(&m, 0, i64::max_value());
    q.matchers[if at == 2 { 1 } else { 0 }].field_type = kinds[k];
    let hit = |x: &str| { let eq = if v.len() == 3 { x == "1" || x == "3" } else { x == v }; eq == (k % 2 == 0) };
    let want: Vec<(Set, Vec<Pt>)> = all.iter().filter(|x| hit(&x.0[1].1) && (at == 0 || x.0[0].1 == "1")).cloned().collect();
    let id = ["matcher-eq", "matcher-neq", "matcher-re", "matcher-nre"][k];
    // another query of the same request is answered as ever, or not at all
    let also = boolean();
    let qs = if also { vec![query(&vec![l("i", "2")], 0, i64::max_value()), q] } else { vec![q] };
    match srv.query(read_rq(qs)) {
        Ok(r) => {
            reach(["eq", "neq", "re", "nre"][k]);
            let r = results(&r);
            check(r.len() == 1 + also as usize, "results-count");
            if also { series(r[0].clone(), &all[2..], "matcher-other") }
            if r.len() > 0 { series(r[r.len() - 1].clone(), &want, id) }
        }
        // what is not supported may be refused
        Err(_) => { check(k != 0, "matcher-eq"); reach("refused") }
    }
}
/// A matcher's value is compared as it is, whatever its characters.
pub fn matcher_text() {
    let (db, log) = on_kv(LONG);
    let srv = server(&db);
    let (s, _) = last(&log);
    let x = pick(&["a", "B", " ", " b", "b ", ",", "=", "\\", "\"", "{", "é", "\0", "b\\", ".*", "b|a"]).to_string();
    let (a, b) = (vec![l("i", "1"), ("j".to_string(), x.clone())], vec![l("i", "1"), l("j", "b")]);
    if x == "b" { return }
    let all = vec![(a, vec![(s, 1)]), (b, vec![(s, 2)])];
    check(srv.write(write_rq(&all)).is_ok(), "write-refused");
    // the value itself, that of the other, and any that might be taken for them
    let v = match choose(6) { 0 => x.clone(), 1 => "b".to_string(), 2 => "B".to_string(), 3 => format!("\\{}", x), 4 => format!("{},", x), _ => String::new() };
    let want: Vec<(Set, Vec<Pt>)> = all.iter().filter(|y| y.0[1].1 == v).cloned().collect();
    let m = vec![("j".to_string(), v)];
    match srv.query(read_rq(vec![query(&m, 0, i64::max_value())])) {
        Ok(r) => { let r = results(&r); check(r.len() == 1, "results-count"); if r.len() == 1 { reach(if want.is_empty() { "none" } else { "some" }); series(r[0].clone(), &want, "matcher-eq") } }
        Err(_) => check(false, "matcher-eq"),
    }
}

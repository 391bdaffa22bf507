//! The server's program itself, from its command line to its answers.
use crate::chunk::{l, series, Pt};
use crate::index::Set;
use crate::options::digits;
use crate::prim::*;
use crate::server::{decode, query, read_rq, results, snappy, write_rq};
use protobuf::Message;
use std::time::Duration;

#[cfg(feature = "bin")]
#[path = "/verif/build/bin/server_main.rs"]
pub mod server_main;
#[cfg(not(feature = "bin"))]
mod server_main { pub fn verif_main() {} }
pub const BIN: bool = cfg!(feature = "bin");

/// How the program ended, or that it listens on the port.
#[derive(Debug, PartialEq)]
pub enum Is { Up, Ended(bool) }
#[cfg(feature = "sym")]
mod on {
    use super::*;
    use std::sync::atomic::{AtomicUsize, Ordering};
    extern "C-unwind" { fn vx_args(n: u64, p: *const *const u8); fn vx_exited() -> i32; }
    static ENDED: AtomicUsize = AtomicUsize::new(0);
    pub fn start(args: &[String], port: u64) -> Is {
        let mut v: Vec<*const u8> = vec![];
        for a in std::iter::once("monolith-server").chain(args.iter().map(|a| a.as_str())) { let mut b = a.as_bytes().to_vec(); b.push(0); v.push(Box::leak(b.into_boxed_slice()).as_ptr()) }
        let n = v.len() as u64;
        v.push(std::ptr::null());
        unsafe { vx_args(n, Box::leak(v.into_boxed_slice()).as_ptr()) }
        ENDED.store(0, Ordering::SeqCst);
        std::thread::spawn(|| {
            let ok = catch(|| { let _ = server_main::verif_main(); }).is_some();
            ENDED.store(if ok || unsafe { vx_exited() } == 1 { 1 } else { 2 }, Ordering::SeqCst);
        });
        for _ in 0..100 {
            std::thread::sleep(Duration::from_millis(10));
            if let Some(a) = tiny_http::SERVING.lock().unwrap().last() {
                check(a.ip().is_loopback(), "listens-elsewhere");
                check(a.port() as u64 == port, "listens-on-another-port");
                return Is::Up
            }
            let e = ENDED.load(Ordering::SeqCst);
            if e > 0 { return Is::Ended(e == 1) }
        }
        check(false, "neither-up-nor-ended");
        unreachable!()
    }
    pub fn post(_port: u64, url: &str, body: Vec<u8>) -> Option<(u16, Vec<u8>)> {
        tiny_http::INBOX.lock().unwrap().push((url.to_string(), body));
        tiny_http::NEWS.notify_all();
        for _ in 0..100 {
            std::thread::sleep(Duration::from_millis(10));
            if let Some(a) = tiny_http::OUTBOX.lock().unwrap().pop() { return Some(a) }
            if ENDED.load(Ordering::SeqCst) > 0 { break }
        }
        None
    }
}
#[cfg(not(feature = "sym"))]
mod on {
    use super::*;
    use std::net::{SocketAddr, TcpStream};
    use std::process::{Child, Command, Stdio};
    use std::sync::Mutex;
    static CHILD: Mutex<Option<Child>> = Mutex::new(None);
    fn to(port: u64) -> SocketAddr { SocketAddr::from(([127, 0, 0, 1], port as u16)) }
    pub fn start(args: &[String], port: u64) -> Is {
        let c = Command::new(std::env::current_exe().unwrap()).args(args).env("VX_MAIN", "1").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap();
        *CHILD.lock().unwrap() = Some(c);
        for _ in 0..1000 {
            std::thread::sleep(Duration::from_millis(10));
            if let Some(s) = CHILD.lock().unwrap().as_mut().unwrap().try_wait().unwrap() { return Is::Ended(s.success()) }
            if port > 0 && port < 65536 && TcpStream::connect(to(port)).is_ok() {
                // (what listens at every address of this machine does so at this one too)
                check(TcpStream::connect(SocketAddr::from(([127, 0, 0, 2], port as u16))).is_err(), "listens-elsewhere");
                return Is::Up
            }
        }
        check(false, "neither-up-nor-ended");
        unreachable!()
    }
    pub fn stop() { if let Some(mut c) = CHILD.lock().unwrap_or_else(|e| e.into_inner()).take() { let _ = c.kill(); let _ = c.wait(); } }
    pub fn post(port: u64, url: &str, body: Vec<u8>) -> Option<(u16, Vec<u8>)> {
        let t = TcpStream::connect(to(port)).ok()?;
        crate::server::talk(t, url, &body)
    }
}
pub use on::{post, start};
#[cfg(not(feature = "sym"))]
pub use on::stop;

pub fn base() -> String { let d = dir("data"); std::fs::create_dir_all(&d).unwrap(); d.display().to_string() }
fn strings(a: &[&str]) -> Vec<String> { a.iter().map(|s| s.to_string()).collect() }
pub fn chunk() -> Option<(u64, u64)> {
    std::fs::read_dir(dir("data")).unwrap().filter_map(|d| u128::from_str_radix(&d.unwrap().file_name().to_string_lossy(), 16).ok()).map(|x| ((x >> 64) as u64, x as u64)).next()
}
pub fn newest() -> Option<(u64, u64)> {
    std::fs::read_dir(dir("data")).unwrap().filter_map(|d| u128::from_str_radix(&d.unwrap().file_name().to_string_lossy(), 16).ok()).map(|x| ((x >> 64) as u64, x as u64)).max()
}
/// One read through the program.
pub fn reads(port: u64, rp: &str, q: &Set, want: &[(Set, Vec<Pt>)]) {
    match post(port, rp, snappy(&read_rq(vec![query(q, 0, i64::max_value())]).write_to_bytes().unwrap())) {
        Some((c, b)) => {
            check(c == 200, "read-status");
            match decode(&b) { Some(r) => { let r = results(&r); check(r.len() == 1, "results-count"); if r.len() == 1 { series(r[0].clone(), want, "read-result") } } None => check(false, "read-body") }
        }
        None => check(false, "read-unanswered"),
    }
}
/// A write and a read through the program.
pub fn works(port: u64, wp: &str, rp: &str) {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_millis() as u64;
    let (s, _) = match newest() { Some(r) => r, None => { check(false, "no-chunk"); return } };
    let a: Set = vec![l("__name__", "up"), l("job", "a")];
    let p: Vec<Pt> = vec![(s + 1, pick(&[0x3ff0_0000_0000_0000, 0x7ff8_0000_0000_0001, 1])), (now + 400, 7)];
    match post(port, wp, snappy(&write_rq(&[(a.clone(), p.clone())]).write_to_bytes().unwrap())) { Some((c, b)) => { check(c == 200, "write-status"); check(b.is_empty(), "write-body") } None => check(false, "write-unanswered") }
    match post(port, rp, snappy(&read_rq(vec![query(&vec![l("job", "a")], 0, i64::max_value()), query(&vec![l("job", "b")], 0, i64::max_value())]).write_to_bytes().unwrap())) {
        Some((c, b)) => {
            check(c == 200, "read-status");
            match decode(&b) { Some(r) => { let r = results(&r); check(r.len() == 2, "results-count"); if r.len() == 2 { series(r[0].clone(), &[(a, p)], "read-result"); series(r[1].clone(), &[], "read-result"); reach("served") } } None => check(false, "read-body") }
        }
        None => check(false, "read-unanswered"),
    }
}
/// Options left out have their defaults.
pub fn defaults() {
    let d = base();
    // (the directory, too: it is the one the program is started in)
    let r = if boolean() { std::env::set_current_dir(&d).unwrap(); start(&[], 9001) } else { start(&strings(&["--file_dir", &d]), 9001) };
    check(r == Is::Up, "not-up");
    if r != Is::Up { return }
    match chunk() { Some((s, e)) => check(e - s == 12_000_000, "chunk-size"), None => check(false, "no-chunk") }
    match post(9001, "/elsewhere", snappy(&[])) { Some((c, _)) => check(c == 404, "unknown-path-status"), None => check(false, "unknown-path-unanswered") }
    works(9001, "/write", "/read");
}
/// Each option is what it says, in every spelling.
pub fn given() {
    let d = base();
    let s = pick(&["1024", "9001", "20080", "65535"]).to_string();
    let x: u64 = s.parse().unwrap();
    let (c, z) = digits(1);
    let (c, z) = if boolean() { (format!("1{}", c), 10 + z) } else { (format!("{}0000", c), 10_000 * z) };
    assume(z > 1);
    let long = boolean();
    let mut v: Vec<String> = vec![];
    let mut put = |k: &str, x: &str| if long { v.push(format!("--{}={}", k, x)) } else { v.push(format!("--{}", k)); v.push(x.to_string()) };
    put("port", &s);
    put("chunk_size", &c);
    put("read_path", "/r/r");
    put("write_path", "/w");
    put("worker_num", "2");
    v.extend(if long { strings(&["-s", "sled", "-i", "sled", "-d", &d]) } else { strings(&["--storage", "sled", "--indexer", "sled", "--file_dir", &d]) });
    if boolean() { v.extend(strings(&["--tikv_config", "none.yaml"])) }
    let r = start(&v, x);
    check(r == Is::Up, "not-up");
    if r != Is::Up { return }
    match chunk() { Some((s, e)) => check(e - s == 1000 * z, "chunk-size"), None => check(false, "no-chunk") }
    match post(x, pick(&["/read", "/write", "/w/"]), snappy(&[])) { Some((c, _)) => check(c == 404, "unknown-path-status"), None => check(false, "unknown-path-unanswered") }
    works(x, "/w", "/r/r");
}
/// What cannot be is refused: the program ends, with a failure, and makes nothing.
pub fn refused() {
    let d = base();
    let a: Vec<String> = match choose(6) {
        0 => strings(&[pick(&["--port=0", "--port=80", "--port=1023", "--port=65536", "--port=99999", "--port=-9001", "--port=4294976297", "--port="])]),
        1 => strings(&["--storage", pick(&["sledge", "", "Sled", "SLED", "tikv "])]),
        2 => strings(&["--indexer", pick(&["sledge", "", "Sled", "rocks"])]),
        3 => strings(&[pick(&["--chunk_size=x", "--chunk_size=-1", "--chunk_size=1.5", "--worker_num=-2", "--worker_num=two", "--port=x"])]),
        4 => strings(&[pick(&["--what", "-z", "stray"])]),
        _ => vec![format!("--file_dir={}/none/such", d)],
    };
    let mut v = strings(&["--file_dir", &d]);
    if a[0].starts_with("--file_dir") { v = vec![] }
    v.extend(a);
    let r = start(&v, 9001);
    check(r == Is::Ended(false), "not-refused");
    check(chunk().is_none(), "refused-but-made");
    reach("refused");
}
/// A size no chunk can have is refused, any other is the chunk's.
pub fn sizes() {
    let d = base();
    // around each place where seconds, milliseconds or the chunk's end come to their limit
    let z = pick(&[u64::MAX, u64::MAX / 1000, u64::MAX / 1000 + 1, u64::MAX / 1000 + 17, u64::MAX / 1000 - 1_700_000_001, i64::MAX as u64 / 1000, i64::MAX as u64 / 1000 + 1, 1 << 54, 4_294_968, 2_147_484, 31_536_000]);
    let r = start(&strings(&["--file_dir", &d, &format!("--chunk_size={}", z)]), 9001);
    if r == Is::Up {
        match chunk() { Some((s, e)) => check(z.checked_mul(1000).and_then(|x| s.checked_add(x)) == Some(e), "chunk-size"), None => check(false, "no-chunk") }
        works(9001, "/write", "/read");
        reach("taken");
    } else {
        check(r == Is::Ended(false), "not-refused");
        check(z > (u32::MAX as u64) * 1000, "size-refused");
        check(chunk().is_none(), "refused-but-made");
        reach("refused");
    }
}

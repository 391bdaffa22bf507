//! Options from the command line.
use crate::prim::*;
use clap::{App, Arg};
use monolith::option::{DbOpts, ServerOpts};
use monolith::*;
use std::time::Duration;

fn parse(args: &[&str]) -> Option<clap::ArgMatches<'static>> {
    let app = App::new("monolith").args(&[
        Arg::with_name(STORAGE_ARG).short("s").long(STORAGE_ARG).default_value(SLED_BACKEND),
        Arg::with_name(INDEXER_ARG).short("i").long(INDEXER_ARG).default_value(SLED_BACKEND),
        Arg::with_name(FILE_DIR_ARG).long(FILE_DIR_ARG).default_value("/tmp"),
        Arg::with_name(CHUNK_SIZE).long(CHUNK_SIZE).default_value(DEFAULT_CHUNK_SIZE),
        Arg::with_name(PORT).long(PORT).default_value("9001"),
        Arg::with_name(WRITE_PATH).long(WRITE_PATH).default_value(DEFAULT_WRITE_PATH),
        Arg::with_name(READ_PATH).long(READ_PATH).default_value(DEFAULT_READ_PATH),
        Arg::with_name(WORKER_NUM).long(WORKER_NUM).default_value("8"),
        Arg::with_name(TIKV_CONFIG).long(TIKV_CONFIG).takes_value(true),
    ]);
    app.get_matches_from_safe(args).ok()
}
/// Decimal digits, any; and their value.
pub fn digits(n: usize) -> (String, u64) {
    let v = vecn(n);
    let mut x = 0u64;
    for &b in &v { assume(b >= b'0' && b <= b'9'); x = x * 10 + (b - b'0') as u64 }
    (unsafe { String::from_utf8_unchecked(v) }, x)
}
pub fn port() {
    let (s, x) = digits(1 + choose(6));
    let neg = boolean();
    let s = if neg { format!("-{}", s) } else { s };
    let a = format!("--port={}", s);
    let m = match parse(&["m", &a]) { Some(m) => m, None => return };
    match ServerOpts::get_config(&m) {
        Ok(o) => { check(!neg && x >= 1024 && x <= 65535, "port-out-of-range"); check(o.port as u64 == x, "port"); check(o.worker_num == 8 && o.write_path == "/write" && o.read_path == "/read", "defaults"); reach("taken") }
        Err(_) => { check(neg || x < 1024 || x > 65535, "port-refused"); reach("refused") }
    };
}
pub fn others() {
    let (s, x) = digits(1 + choose(4));
    let (w, y) = digits(2);
    let (a, b) = (format!("--chunk_size={}", s), format!("--worker_num={}", w));
    let m = match parse(&["m", "--storage", "tikv", "--indexer=sled", "--file_dir", "/data/x", &a, &b, "--write_path=/w", "--read_path=/r", "--tikv_config=/c"]) { Some(m) => m, None => { check(false, "options-refused"); return } };
    match (DbOpts::get_config(&m), ServerOpts::get_config(&m)) {
        (Ok(d), Ok(o)) => {
            check(d.storage == "tikv" && d.indexer == "sled", "backend-options");
            check(d.base_dir == std::path::Path::new("/data/x"), "path-options");
            check(d.tikv_config == Some("/c".into()), "tikv-config-option");
            check(d.chunk_size == Duration::from_secs(x), "chunk-size");
            check(o.worker_num as u64 == y && o.write_path == "/w" && o.read_path == "/r" && o.port == 9001, "server-options");
            reach("options");
        }
        _ => check(false, "options-refused"),
    };
}
/// What is no number is refused.
pub fn junk() {
    let s = ascii(1 + choose(2));
    for b in s.bytes() { assume(b != b'=' && b != 0) }
    let num = s.bytes().all(|b| b >= b'0' && b <= b'9') || (s.len() > 1 && s.as_bytes()[0] == b'+' && s.as_bytes()[1] >= b'0' && s.as_bytes()[1] <= b'9');
    let k = choose(2);
    let a = format!("--{}={}", [CHUNK_SIZE, WORKER_NUM][k], s);
    let m = match parse(&["m", &a]) { Some(m) => m, None => return };
    let ok = if k == 0 { DbOpts::get_config(&m).is_ok() } else { ServerOpts::get_config(&m).is_ok() };
    check(ok == num, "number-option");
    reach(if ok { "number" } else { "junk" });
}
/// The file for the TiKV backend: its endpoints and whether to run dry, in either order, or left out.
pub fn tikv() {
    let f = dir("tikv.yaml");
    let bad = choose(5);
    if bad > 0 {
        if bad < 4 { std::fs::write(&f, ["dry_run: maybe\n", "pd_endpoints: 3\n", "pd_endpoints: [\n"][bad - 1]).unwrap() }
        check(TiKvBackendConfigFile::from_file(&f).is_err(), "damaged-config-taken");
        reach("config-refused");
        return
    }
    let host = format!("10.0.0.{}", pick(&["1", "20", "255"]));
    let port = pick(&["", ":2379"]);
    let hosts: Vec<String> = match choose(4) { 0 => vec![], 1 => vec![format!("{}{}", host, port)], 2 => vec!["pd-0".to_string(), format!("{}{}", host, port)], _ => vec!["a.b".to_string(), host.clone(), "z".to_string()] };
    let dry = pick(&[None, Some(true), Some(false)]);
    let l = match hosts.len() { 0 => String::new(), _ => if boolean() { format!("pd_endpoints: [{}]\n", hosts.iter().map(|h| format!("\"{}\"", h)).collect::<Vec<_>>().join(", ")) } else { format!("pd_endpoints:\n{}", hosts.iter().map(|h| format!(" - {}\n", h)).collect::<String>()) } };
    let d = match dry { None => String::new(), Some(x) => format!("dry_run: {}\n", x) };
    let text = if boolean() { format!("# where TiKV is\n{}{}", l, d) } else { format!("{}{}", d, l) };
    std::fs::write(&f, &text).unwrap();
    match TiKvBackendConfigFile::from_file(&f) {
        Ok(c) => {
            let v = serde_json::to_value(&c).unwrap();
            check(v["pd_endpoints"] == serde_json::to_value(&hosts).unwrap(), "endpoints");
            check(v["dry_run"] == serde_json::Value::Bool(dry.unwrap_or(true)), "dry-run");
            reach("tikv-config");
        }
        Err(_) => { check(hosts.is_empty() && dry.is_none(), "config-refused") }
    }
}

#![allow(dead_code, unused_parens)]
mod env; mod exec; mod expr; mod ir; mod mem; mod par; mod report; mod solver; mod selftest;
use exec::*;
fn arg(a: &[String], k: &str) -> Option<String> { a.iter().position(|x| x == k).and_then(|i| a.get(i + 1).cloned()) }
fn real_main() -> i32 {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("selftest") => selftest::run(arg(&a, "--n").and_then(|x| x.parse().ok()).unwrap_or(3000)),
        Some("run") => {
            let ll = arg(&a, "--ll").expect("--ll"); let entry = arg(&a, "--entry").expect("--entry"); let out = arg(&a, "--out");
            let secs: f64 = arg(&a, "--timeout").and_then(|x| x.parse().ok()).unwrap_or(600.0);
            let jobs: i64 = arg(&a, "--jobs").and_then(|x| x.parse().ok()).unwrap_or(8);
            let qms: u32 = arg(&a, "--query-ms").and_then(|x| x.parse().ok()).unwrap_or(60000);
            let pat = arg(&a, "--cov").unwrap_or("/mirror/".into());
            let concrete = arg(&a, "--concrete").map(|f| { let t = std::fs::read_to_string(f).unwrap(); t.lines().filter(|l| !l.is_empty() && !l.starts_with('#')).map(|l| { let l = l.trim(); (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect() }).collect() });
            let opt = Opts { max_steps: arg(&a, "--max-steps").and_then(|x| x.parse().ok()).unwrap_or(20_000_000), deadline: secs, max_viol: arg(&a, "--max-viol").and_then(|x| x.parse().ok()).unwrap_or(2), trace: a.iter().any(|x| x == "--trace"), concrete, max_enum: 4096 };
            let m = ir::Module::load(&ll);
            let mut ex = Exec::new(m, qms, opt);
            ex.sv.dump = arg(&a, "--dump");
            let dir = format!("/tmp/symir.{}", std::process::id());
            std::fs::create_dir_all(&dir).unwrap();
            if jobs > 1 { par::subreaper(); ex.shared = Some(par::Shared::new(jobs - 1, &dir)); }
            let st = ex.initial(&entry);
            ex.queue.push(st);
            ex.run_all();
            if ex.shared.as_ref().map(|s| s.child).unwrap_or(false) { par::child_done(&mut ex) }
            if let Some(sh) = ex.shared.clone() {
                par::wait_all();
                let n = sh.live().load(std::sync::atomic::Ordering::SeqCst);
                let mut got = 0;
                for e in std::fs::read_dir(&dir).unwrap() { let t = std::fs::read_to_string(e.unwrap().path()).unwrap(); report::merge(&mut ex, &t); got += 1 }
                if got != n { *ex.out.errs.entry(format!("{} worker(s) lost", n - got)).or_default() += 1; ex.out.incomplete += 1 }
            }
            let _ = std::fs::remove_dir_all(&dir);
            let secs = ex.t0.elapsed().as_secs_f64();
            let j = report::json(&mut ex, &entry, secs, &pat);
            match out { Some(f) => std::fs::write(f, j).unwrap(), None => print!("{}", j) }
            0
        }
        _ => { eprintln!("usage: symir run|selftest"); 2 }
    }
}
fn main() {
    extern "C" { fn _exit(c: i32) -> !; }
    // (a worker is a fork of the thread: a panic there must end its process, not only the thread)
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(|| match std::panic::catch_unwind(real_main) { Ok(r) => r, Err(_) => unsafe { _exit(3) } }).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}

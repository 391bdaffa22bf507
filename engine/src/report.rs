//! (De)serialisation of worker results and the final JSON report.
use crate::exec::*;
use std::collections::BTreeMap;

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('\t', " ").replace('\n', "\\n") }
fn nds(nd: &[(String, Vec<u8>)]) -> String { nd.iter().map(|(n, b)| format!("{}={}", n, hex(b))).collect::<Vec<_>>().join(",") }
fn unnds(s: &str) -> Vec<(String, Vec<u8>)> { if s.is_empty() { return vec![] } s.split(',').map(|x| { let i = x.find('=').unwrap(); (x[..i].to_string(), unhex(&x[i + 1..])) }).collect() }

pub fn serialise(ex: &Exec) -> String {
    let o = &ex.out; let mut s = String::new();
    let st = &ex.sv.st;
    s += &format!("n\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", o.paths, o.killed, o.ends, o.insts, o.incomplete, o.max_depth, o.forks);
    s += &format!("q\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n", st.queries, st.sat, st.unsat, st.unknown, st.ms, st.max_ms, st.cached, st.model_hits, st.fp_queries);
    for (k, v) in &o.errs { s += &format!("e\t{}\t{}\n", v, esc(k)) }
    for (k, v) in &o.reach { s += &format!("r\t{}\t{}\n", v, esc(k)) }
    for (k, v) in &o.viol_seen { s += &format!("s\t{}\t{}\n", v, esc(k)) }
    for (k, v) in &o.witness { s += &format!("w\t{}\t{}\n", esc(k), nds(v)) }
    for (nd, sc) in &o.ends_kept { s += &format!("k\t{}\t{}\n", nds(nd), sc.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
    for v in &o.viol { s += &format!("v\t{}\t{}\t{}\t{}\t{}\n", esc(&v.id), esc(&v.msg), nds(&v.nd), v.sched.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), esc(&v.trace.join(" | "))) }
    s += "c"; for (i, b) in ex.cov.iter().enumerate() { if *b { s += &format!("\t{}", i) } } s += "\n";
    s += "f"; for (i, b) in ex.fcov.iter().enumerate() { if *b { s += &format!("\t{}", i) } } s += "\n";
    s
}
pub fn merge(ex: &mut Exec, text: &str) {
    for l in text.lines() {
        let p: Vec<&str> = l.split('\t').collect();
        let n = |i: usize| p[i].parse::<u64>().unwrap_or(0);
        let o = &mut ex.out; let st = &mut ex.sv.st;
        match p[0] {
            "n" => { o.paths += n(1); o.killed += n(2); o.ends += n(3); o.insts += n(4); o.incomplete += n(5); o.max_depth = o.max_depth.max(n(6) as u32); o.forks += n(7) }
            "q" => { st.queries += n(1); st.sat += n(2); st.unsat += n(3); st.unknown += n(4); st.ms += p[5].parse::<f64>().unwrap(); st.max_ms = st.max_ms.max(p[6].parse::<f64>().unwrap()); st.cached += n(7); st.model_hits += n(8); st.fp_queries += n(9) }
            "e" => *o.errs.entry(p[2].into()).or_default() += n(1),
            "r" => *o.reach.entry(p[2].into()).or_default() += n(1),
            "s" => *o.viol_seen.entry(p[2].into()).or_default() += n(1),
            "w" => { o.witness.entry(p[1].into()).or_insert(unnds(p[2])); }
            "k" => o.ends_kept.push((unnds(p[1]), if p[2].is_empty() { vec![] } else { p[2].split(',').map(|x| x.parse().unwrap()).collect() })),
            "v" => { let max = ex.opt.max_viol; if o.viol.iter().filter(|v| v.id == p[1]).count() < max { o.viol.push(Violation { id: p[1].into(), msg: p[2].into(), nd: unnds(p[3]), sched: if p[4].is_empty() { vec![] } else { p[4].split(',').map(|x| x.parse().unwrap()).collect() }, trace: vec![p[5].into()] }) } }
            "c" => for x in &p[1..] { let i: usize = x.parse().unwrap(); if i >= ex.cov.len() { ex.cov.resize(i + 1, false) } ex.cov[i] = true },
            "f" => for x in &p[1..] { let i: usize = x.parse().unwrap(); ex.fcov[i] = true },
            _ => {}
        }
    }
}
fn js(s: &str) -> String { let mut o = String::from("\""); for ch in s.chars() { match ch { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o + "\"" }
/// (file -> function -> lines) of executed instructions whose debug location lies under a path containing `pat`
pub fn coverage(ex: &mut Exec, pat: &str) -> BTreeMap<String, BTreeMap<String, std::collections::BTreeSet<u32>>> {
    let mut out: BTreeMap<String, BTreeMap<String, std::collections::BTreeSet<u32>>> = BTreeMap::new();
    let ids: Vec<u32> = ex.cov.iter().enumerate().filter(|x| *x.1).map(|x| x.0 as u32).collect();
    fn field<'a>(l: &'a str, k: &str) -> Option<&'a str> { let i = l.find(k)?; let r = &l[i + k.len()..]; let e = r.find(|c: char| c == ',' || c == ')').unwrap_or(r.len()); Some(&r[..e]) }
    fn mid(s: Option<&str>) -> Option<u32> { s?.trim_start_matches('!').parse().ok() }
    let mut seen = std::collections::HashSet::new();
    let mut work = ids;
    while let Some(id) = work.pop() {
        if !seen.insert(id) { continue }
        let l = match ex.m.meta_line(id) { Some(l) => l, None => continue };
        if let Some(ia) = mid(field(l, "inlinedAt: ")) { work.push(ia) }
        let line: u32 = field(l, "line: ").and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut sc = mid(field(l, "scope: "));
        let (mut name, mut file) = (String::new(), None);
        for _ in 0..50 {
            let s = match sc.and_then(|x| ex.m.meta_line(x)) { Some(s) => s, None => break };
            if s.contains("DISubprogram(") { name = field(s, "name: ").unwrap_or("?").trim_matches('"').to_string(); file = mid(field(s, "file: ")); break }
            sc = mid(field(s, "scope: "));
        }
        if let Some(f) = file.and_then(|x| ex.m.meta_line(x)) { if let Some(fnm) = field(f, "filename: ") { let dir = field(f, "directory: ").unwrap_or("").trim_matches('"'); let full = fnm.trim_matches('"'); let full = if full.starts_with('/') { full.to_string() } else { format!("{}/{}", dir, full) }; if let Some(i) = full.find(pat) { out.entry(full[i + pat.len()..].to_string()).or_default().entry(name).or_default().insert(line); } } }
    }
    out
}
pub fn json(ex: &mut Exec, entry: &str, secs: f64, pat: &str) -> String {
    let cov = coverage(ex, pat);
    let o = &ex.out; let st = &ex.sv.st;
    let mut s = format!("{{\"entry\":{},\"seconds\":{:.2},\"solver\":{},\"paths\":{},\"killed\":{},\"completed\":{},\"instructions\":{},\"forks\":{},\"max_depth\":{},\"incomplete\":{},\n", js(entry), secs, js(&crate::solver::Solver::version()), o.paths, o.killed, o.ends, o.insts, o.forks, o.max_depth, o.incomplete);
    s += &format!("\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_ms\":{:.1},\"max_query_ms\":{:.1},\"cache_hits\":{},\"model_hits\":{},\"fp_queries\":{},\n", st.queries, st.sat, st.unsat, st.unknown, st.ms, st.max_ms, st.cached, st.model_hits, st.fp_queries);
    s += &format!("\"errors\":{{{}}},\n", o.errs.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    s += &format!("\"reach\":{{{}}},\n", o.reach.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    s += &format!("\"violations_seen\":{{{}}},\n", o.viol_seen.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
    let nd = |nd: &Vec<(String, Vec<u8>)>| format!("[{}]", nd.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&hex(b)))).collect::<Vec<_>>().join(","));
    s += &format!("\"witness\":{{{}}},\n", o.witness.iter().map(|(k, v)| format!("{}:{}", js(k), nd(v))).collect::<Vec<_>>().join(","));
    s += &format!("\"ends\":[{}],\n", o.ends_kept.iter().map(|(n, sc)| format!("{{\"nd\":{},\"sched\":[{}]}}", nd(n), sc.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n"));
    s += &format!("\"violations\":[{}],\n", o.viol.iter().map(|v| format!("{{\"id\":{},\"msg\":{},\"nd\":{},\"sched\":[{}],\"notes\":{}}}", js(&v.id), js(&v.msg), nd(&v.nd), v.sched.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","), js(&v.trace.join(" | ")))).collect::<Vec<_>>().join(",\n"));
    s += &format!("\"coverage\":{{{}}}}}\n", cov.iter().map(|(f, m)| format!("{}:{{{}}}", js(f), m.iter().map(|(n, l)| format!("{}:[{}]", js(n), l.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",\n"));
    s
}

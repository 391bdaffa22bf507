//! What this project uses of tikv-client: a cluster that keeps what it is given, by key, and may be away.
use std::sync::Mutex;

#[derive(Debug, Clone)]
pub struct Error(String);
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

/// The placement drivers' addresses: they say which cluster it is.
#[derive(Debug, Clone)]
pub struct Config { pd_endpoints: Vec<String> }
impl Config {
    pub fn new(pd_endpoints: impl IntoIterator<Item = impl Into<String>>) -> Config { Config { pd_endpoints: pd_endpoints.into_iter().map(|x| x.into()).collect() } }
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Key(Vec<u8>);
impl From<Vec<u8>> for Key { fn from(v: Vec<u8>) -> Key { Key(v) } }
impl From<Key> for Vec<u8> { fn from(v: Key) -> Vec<u8> { v.0 } }
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Value(Vec<u8>);
impl From<Vec<u8>> for Value { fn from(v: Vec<u8>) -> Value { Value(v) } }
impl From<Value> for Vec<u8> { fn from(v: Value) -> Vec<u8> { v.0 } }

static TROUBLE: Mutex<Option<(usize, usize, bool)>> = Mutex::new(None);
/// The n-th operation from here fails, and those after it, `many` of them.
pub fn arm(n: usize, many: usize) { *TROUBLE.lock().unwrap() = Some((n, many, false)) }
/// Ends it; true if there was any.
pub fn mend() -> bool { TROUBLE.lock().unwrap().take().map_or(false, |t| t.2) }
fn step() -> Result<()> {
    match &mut *TROUBLE.lock().unwrap() {
        None | Some((0, 0, _)) => Ok(()),
        Some((0, m, hit)) => { *m -= 1; *hit = true; Err(Error("the cluster is away".to_string())) }
        Some((n, _, _)) => { *n -= 1; Ok(()) }
    }
}

#[cfg(not(feature = "file"))]
mod kept {
    use super::*;
    /// (cluster, key, value)
    static ALL: Mutex<Vec<(String, Vec<u8>, Vec<u8>)>> = Mutex::new(Vec::new());
    pub fn put(c: &str, k: Vec<u8>, v: Vec<u8>) {
        let mut g = ALL.lock().unwrap();
        for e in g.iter_mut() { if e.0 == c && e.1 == k { e.2 = v; return } }
        g.push((c.to_string(), k, v));
    }
    pub fn get(c: &str, k: &[u8]) -> Option<Vec<u8>> { ALL.lock().unwrap().iter().find(|e| e.0 == c && e.1 == k).map(|e| e.2.clone()) }
}
#[cfg(feature = "file")]
mod kept {
    fn file(c: &str, k: &[u8]) -> std::path::PathBuf {
        let hex = |b: &[u8]| b.iter().map(|x| format!("{:02x}", x)).collect::<String>();
        let d = std::path::PathBuf::from(std::env::var_os("VX_DIR").expect("VX_DIR")).join("cluster").join(format!("c{}", hex(c.as_bytes())));
        std::fs::create_dir_all(&d).unwrap();
        // (names may be long)
        let k = hex(k);
        let mut p = d;
        for (i, part) in k.as_bytes().chunks(200).enumerate() { if i > 0 { std::fs::create_dir_all(&p).unwrap() } p = p.join(format!("{}{}", if (i + 1) * 200 < k.len() { "d" } else { "f" }, std::str::from_utf8(part).unwrap())) }
        p
    }
    pub fn put(c: &str, k: Vec<u8>, v: Vec<u8>) { let f = file(c, &k); std::fs::create_dir_all(f.parent().unwrap()).unwrap(); std::fs::write(f, v).unwrap() }
    pub fn get(c: &str, k: &[u8]) -> Option<Vec<u8>> { std::fs::read(file(c, k)).ok() }
}

pub struct RawClient { cluster: String }
impl RawClient {
    pub fn new(config: Config) -> Result<RawClient> {
        step()?;
        if config.pd_endpoints.is_empty() { return Err(Error("no placement driver".to_string())) }
        Ok(RawClient { cluster: config.pd_endpoints.join(",") })
    }
    pub async fn put(&self, key: impl Into<Key>, value: impl Into<Value>) -> Result<()> {
        step()?;
        kept::put(&self.cluster, key.into().0, value.into().0);
        Ok(())
    }
    pub async fn get(&self, key: impl Into<Key>) -> Result<Option<Value>> {
        step()?;
        Ok(kept::get(&self.cluster, &key.into().0).map(Value))
    }
}

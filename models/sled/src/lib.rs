//! Model of the part of sled 0.22.1's API a key-value client needs: a map from byte strings to byte
//! strings, one per directory, shared by every handle on that directory for the life of the process
//! (so a store that is closed and opened again holds what was written to it).  A read-only handle
//! refuses writes, as sled's does.  `fail_set_after` lets a harness make the n-th write from now fail.
use std::ops::Deref;
use std::path::Path;
use std::sync::{Arc, Mutex};

#[derive(Debug, Clone, PartialEq)]
pub enum Error { Unsupported(String), CollectionNotFound(Vec<u8>), ReportableBug(String), Io(String) }
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("sled error") }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct IVec(Vec<u8>);
impl Deref for IVec { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
impl AsRef<[u8]> for IVec { fn as_ref(&self) -> &[u8] { &self.0 } }
impl From<Vec<u8>> for IVec { fn from(v: Vec<u8>) -> Self { IVec(v) } }
impl From<Box<[u8]>> for IVec { fn from(v: Box<[u8]>) -> Self { IVec(v.into_vec()) } }
impl From<&[u8]> for IVec { fn from(v: &[u8]) -> Self { IVec(v.to_vec()) } }
impl From<&str> for IVec { fn from(v: &str) -> Self { IVec(v.as_bytes().to_vec()) } }
impl From<String> for IVec { fn from(v: String) -> Self { IVec(v.into_bytes()) } }
impl From<&IVec> for IVec { fn from(v: &IVec) -> Self { v.clone() } }
impl From<Arc<[u8]>> for IVec { fn from(v: Arc<[u8]>) -> Self { IVec(v.to_vec()) } }

type Store = Arc<Mutex<Vec<(Vec<u8>, Vec<u8>)>>>;
static STORES: Mutex<Vec<(Vec<u8>, Store)>> = Mutex::new(Vec::new());
static FAIL: Mutex<Option<u64>> = Mutex::new(None);
pub fn fail_set_after(n: Option<u64>) { *FAIL.lock().unwrap() = n }

#[derive(Clone)]
pub struct Tree { map: Store, read_only: bool }
#[derive(Clone)]
pub struct Db(Arc<Tree>);
impl Deref for Db { type Target = Tree; fn deref(&self) -> &Tree { &self.0 } }

#[derive(Clone, Debug)]
pub struct Config { path: Vec<u8>, read_only: bool }
#[derive(Clone, Debug)]
pub struct ConfigBuilder(Config);
impl Default for ConfigBuilder { fn default() -> Self { ConfigBuilder(Config { path: b"default.sled".to_vec(), read_only: false }) } }
impl ConfigBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn path<P: AsRef<Path>>(mut self, p: P) -> Self { self.0.path = path_bytes(p.as_ref()); self }
    pub fn read_only(mut self, r: bool) -> Self { self.0.read_only = r; self }
    pub fn temporary(self, _: bool) -> Self { self }
    pub fn flush_every_ms(self, _: Option<u64>) -> Self { self }
    pub fn cache_capacity(self, _: u64) -> Self { self }
    pub fn build(self) -> Config { self.0 }
}
fn path_bytes(p: &Path) -> Vec<u8> { p.to_string_lossy().as_bytes().to_vec() }

impl Db {
    pub fn start_default<P: AsRef<Path>>(p: P) -> Result<Db> { Db::start(ConfigBuilder::new().path(p).build()) }
    pub fn start(c: Config) -> Result<Db> {
        if let Err(e) = std::fs::create_dir_all(String::from_utf8_lossy(&c.path).as_ref()) { return Err(Error::Io(e.to_string())) }
        let mut all = STORES.lock().unwrap();
        for (p, s) in all.iter() {
            if *p == c.path { return Ok(Db(Arc::new(Tree { map: s.clone(), read_only: c.read_only }))) }
        }
        let s: Store = Arc::new(Mutex::new(Vec::new()));
        all.push((c.path, s.clone()));
        Ok(Db(Arc::new(Tree { map: s, read_only: c.read_only })))
    }
    pub fn was_recovered(&self) -> bool { !self.is_empty() }
}

impl Tree {
    fn writable(&self) -> Result<()> {
        if self.read_only { return Err(Error::Unsupported("the database is in read-only mode".into())) }
        let mut f = FAIL.lock().unwrap();
        match *f {
            Some(0) => Err(Error::Io("injected".into())),
            Some(n) => { *f = Some(n - 1); Ok(()) }
            None => Ok(()),
        }
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        for (a, b) in self.map.lock().unwrap().iter() { if a.as_slice() == k.as_ref() { return Ok(Some(IVec(b.clone()))) } }
        Ok(None)
    }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> Result<bool> { Ok(self.get(k)?.is_some()) }
    pub fn set<K: AsRef<[u8]>, V>(&self, k: K, v: V) -> Result<Option<IVec>> where IVec: From<V> {
        self.writable()?;
        let v = IVec::from(v);
        let mut g = self.map.lock().unwrap();
        for e in g.iter_mut() {
            if e.0.as_slice() == k.as_ref() { let o = std::mem::replace(&mut e.1, v.0); return Ok(Some(IVec(o))) }
        }
        g.push((k.as_ref().to_vec(), v.0));
        Ok(None)
    }
    pub fn del<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        self.writable()?;
        let mut g = self.map.lock().unwrap();
        for i in 0..g.len() { if g[i].0.as_slice() == k.as_ref() { return Ok(Some(IVec(g.remove(i).1))) } }
        Ok(None)
    }
    pub fn update_and_fetch<K: AsRef<[u8]>, V, F>(&self, k: K, mut f: F) -> Result<Option<IVec>> where F: FnMut(Option<&[u8]>) -> Option<V>, IVec: From<V> {
        let cur = self.get(k.as_ref())?;
        match f(cur.as_ref().map(|c| c.as_ref())) {
            Some(v) => { let v = IVec::from(v); self.set::<K, Vec<u8>>(k, v.clone().0)?; Ok(Some(v)) }
            None => { self.del(k)?; Ok(None) }
        }
    }
    pub fn fetch_and_update<K: AsRef<[u8]>, V, F>(&self, k: K, f: F) -> Result<Option<IVec>> where F: FnMut(Option<&[u8]>) -> Option<V>, IVec: From<V> {
        let cur = self.get(k.as_ref())?;
        self.update_and_fetch(k, f)?;
        Ok(cur)
    }
    fn sorted(&self) -> Vec<(Vec<u8>, Vec<u8>)> { let mut v = self.map.lock().unwrap().clone(); v.sort(); v }
    pub fn iter(&self) -> std::vec::IntoIter<Result<(Vec<u8>, IVec)>> {
        self.sorted().into_iter().map(|(a, b)| Ok((a, IVec(b)))).collect::<Vec<_>>().into_iter()
    }
    pub fn scan<K: AsRef<[u8]>>(&self, k: K) -> std::vec::IntoIter<Result<(Vec<u8>, IVec)>> {
        self.sorted().into_iter().filter(|(a, _)| a.as_slice() >= k.as_ref()).map(|(a, b)| Ok((a, IVec(b)))).collect::<Vec<_>>().into_iter()
    }
    pub fn len(&self) -> usize { self.map.lock().unwrap().len() }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn clear(&self) -> Result<()> { self.writable()?; self.map.lock().unwrap().clear(); Ok(()) }
    pub fn flush(&self) -> Result<usize> { Ok(0) }
}

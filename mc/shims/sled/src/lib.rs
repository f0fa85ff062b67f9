//! sled over the controlled world: writes are volatile until flushed or until the last handle is closed; a crash
//! keeps the flushed part and any prefix of the rest.
pub use sled_real::{Error, IVec, Mode, Result};

use std::collections::BTreeMap;
use std::io;
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::sync::Arc;
use vmc_std::rt;
use vmc_std::world::{self, Store};

const EIO: i32 = 5;
const ENOSPC: i32 = 28;

fn fault(what: &'static str, errors: &[i32]) -> Result<()> {
    rt::point(what);
    world::fault(rt::world().faults.store, what, errors).map_err(Error::Io)
}

struct Handle(PathBuf);
impl Drop for Handle {
    fn drop(&mut self) {
        if rt::dying() {
            return;
        }
        if let Some(w) = rt::try_world() {
            rt::point("close the store");
            // the real one flushes when the last handle goes
            if let Some(s) = w.stores.get_mut(&self.0) {
                if s.open > 0 {
                    s.open -= 1;
                    flush(s);
                }
            }
        }
    }
}
fn flush(s: &mut Store) {
    rt::world().effects += 1;
    for (k, v) in std::mem::take(&mut s.pending) {
        match v {
            Some(v) => s.durable.insert(k, v),
            None => s.durable.remove(&k),
        };
    }
}
fn current(s: &Store) -> BTreeMap<Vec<u8>, Vec<u8>> {
    let mut m = s.durable.clone();
    for (k, v) in &s.pending {
        match v {
            Some(v) => m.insert(k.clone(), v.clone()),
            None => m.remove(k),
        };
    }
    m
}

#[derive(Clone)]
pub struct Tree {
    h: Arc<Handle>,
    prefix: Vec<u8>,
}
#[derive(Clone)]
pub struct Db {
    tree: Tree,
}
impl Deref for Db {
    type Target = Tree;
    fn deref(&self) -> &Tree {
        &self.tree
    }
}

pub fn open<P: AsRef<Path>>(path: P) -> Result<Db> {
    Config::new().path(path).open()
}

#[derive(Clone, Default, Debug)]
pub struct Config {
    path: PathBuf,
}
impl Config {
    pub fn new() -> Config {
        Config::default()
    }
    pub fn path<P: AsRef<Path>>(mut self, p: P) -> Config {
        self.path = p.as_ref().to_path_buf();
        self
    }
    pub fn mode(self, _: Mode) -> Config {
        self
    }
    pub fn cache_capacity(self, _: u64) -> Config {
        self
    }
    pub fn flush_every_ms(self, _: Option<u64>) -> Config {
        self
    }
    pub fn use_compression(self, _: bool) -> Config {
        self
    }
    pub fn create_new(self, _: bool) -> Config {
        self
    }
    pub fn open(&self) -> Result<Db> {
        fault("open the store", &[EIO, 13])?;
        let s = rt::world().stores.entry(self.path.clone()).or_default();
        if s.open > 0 {
            return Err(Error::Io(io::ErrorKind::WouldBlock.into()));
        }
        s.open += 1;
        Ok(Db { tree: Tree { h: Arc::new(Handle(self.path.clone())), prefix: vec![] } })
    }
}
impl Db {
    pub fn open_tree<V: AsRef<[u8]>>(&self, name: V) -> Result<Tree> {
        fault("open a tree", &[EIO])?;
        let mut p = name.as_ref().to_vec();
        p.insert(0, 0);
        p.push(0);
        Ok(Tree { h: self.tree.h.clone(), prefix: p })
    }
    pub fn was_recovered(&self) -> bool {
        !self.tree.store().durable.is_empty()
    }
    pub fn generate_id(&self) -> Result<u64> {
        Ok(rt::world().random_draws)
    }
}
impl Tree {
    fn store(&self) -> &mut Store {
        rt::world().stores.get_mut(&self.h.0).expect("store")
    }
    fn key<K: AsRef<[u8]>>(&self, k: K) -> Vec<u8> {
        [&self.prefix[..], k.as_ref()].concat()
    }
    fn read(&self, k: &[u8]) -> Option<IVec> {
        current(self.store()).get(k).map(|v| IVec::from(v.as_slice()))
    }
    pub fn get<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        fault("read the store", &[EIO])?;
        Ok(self.read(&self.key(k)))
    }
    pub fn contains_key<K: AsRef<[u8]>>(&self, k: K) -> Result<bool> {
        self.get(k).map(|v| v.is_some())
    }
    pub fn insert<K: AsRef<[u8]>, V: Into<IVec>>(&self, k: K, v: V) -> Result<Option<IVec>> {
        fault("write the store", &[EIO, ENOSPC])?;
        let k = self.key(k);
        let old = self.read(&k);
        let v: IVec = v.into();
        rt::world().effects += 1;
        self.store().pending.push((k, Some(v.to_vec())));
        Ok(old)
    }
    pub fn remove<K: AsRef<[u8]>>(&self, k: K) -> Result<Option<IVec>> {
        fault("write the store", &[EIO])?;
        let k = self.key(k);
        let old = self.read(&k);
        rt::world().effects += 1;
        self.store().pending.push((k, None));
        Ok(old)
    }
    pub fn compare_and_swap<K: AsRef<[u8]>, OV: AsRef<[u8]>, NV: Into<IVec>>(
        &self,
        k: K,
        old: Option<OV>,
        new: Option<NV>,
    ) -> Result<std::result::Result<(), CompareAndSwapError>> {
        fault("write the store", &[EIO, ENOSPC])?;
        let k = self.key(k);
        let cur = self.read(&k);
        let new = new.map(Into::into);
        if cur.as_deref() != old.as_ref().map(|o| o.as_ref()) {
            return Ok(Err(CompareAndSwapError { current: cur, proposed: new }));
        }
        rt::world().effects += 1;
        self.store().pending.push((k, new.map(|v: IVec| v.to_vec())));
        Ok(Ok(()))
    }
    pub fn fetch_and_update<K: AsRef<[u8]>, V: Into<IVec>, F: FnMut(Option<&[u8]>) -> Option<V>>(&self, k: K, mut f: F) -> Result<Option<IVec>> {
        fault("write the store", &[EIO, ENOSPC])?;
        let k = self.key(k);
        let cur = self.read(&k);
        let new = f(cur.as_deref()).map(|v| v.into().to_vec());
        rt::world().effects += 1;
        self.store().pending.push((k, new));
        Ok(cur)
    }
    pub fn update_and_fetch<K: AsRef<[u8]>, V: Into<IVec>, F: FnMut(Option<&[u8]>) -> Option<V>>(&self, k: K, f: F) -> Result<Option<IVec>> {
        let key = self.key(&k);
        self.fetch_and_update(k, f)?;
        Ok(self.read(&key))
    }
    pub fn flush(&self) -> Result<usize> {
        fault("flush the store", &[EIO, ENOSPC])?;
        let s = self.store();
        let n = s.pending.iter().map(|x| x.0.len()).sum();
        flush(s);
        Ok(n)
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn len(&self) -> usize {
        current(self.store()).keys().filter(|k| k.starts_with(&self.prefix)).count()
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct CompareAndSwapError {
    pub current: Option<IVec>,
    pub proposed: Option<IVec>,
}
impl std::fmt::Display for CompareAndSwapError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Compare and swap conflict")
    }
}
impl std::error::Error for CompareAndSwapError {}

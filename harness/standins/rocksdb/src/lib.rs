//! Stand-in for the rust-rocksdb fork (neither the fork nor librocksdb is available here).
//!
//! An ordered key/value map. Every write is appended to one log file (`KV.log`) in the database
//! directory before it becomes visible, and opening a directory replays that log, so that the
//! prefix of the log which a crash leaves behind can be opened like any other database.
//!
//! The module `hooks` is what the checks use: counting and failing operations, recording the
//! writes, and holding back scans so that a chosen schedule of concurrent fetches is played.

use std::collections::BTreeMap;
use std::fmt;
use std::fs::{File, OpenOptions};
use std::io::{Read, Write};
use std::ops::Deref;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex, RwLock};

pub mod hooks;

#[derive(Clone, Debug, PartialEq)]
pub struct Error {
    message: String,
}
impl Error {
    pub fn new(message: String) -> Error {
        Error { message }
    }
    pub fn into_string(self) -> String {
        self.message
    }
}
impl AsRef<str> for Error {
    fn as_ref(&self) -> &str {
        &self.message
    }
}
impl From<Error> for String {
    fn from(e: Error) -> String {
        e.message
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.message.fmt(f)
    }
}
impl std::error::Error for Error {
    fn description(&self) -> &str {
        &self.message
    }
}

#[derive(Clone, Debug, Default)]
pub struct Options {
    create: bool,
    error_if_exists: bool,
    read_only: bool,
}
impl Options {
    pub fn create_if_missing(&mut self, v: bool) {
        self.create = v;
    }
    pub fn set_error_if_exists(&mut self, v: bool) {
        self.error_if_exists = v;
    }
    pub fn set_read_only(&mut self, v: bool) {
        self.read_only = v;
    }
    pub fn set_disable_auto_compactions(&mut self, _: bool) {}
    pub fn set_allow_mmap_reads(&mut self, _: bool) {}
    pub fn set_allow_mmap_writes(&mut self, _: bool) {}
    pub fn set_max_open_files(&mut self, _: i32) {}
    pub fn set_use_fsync(&mut self, _: bool) {}
    pub fn set_compression_type(&mut self, _: DBCompressionType) {}
    pub fn prepare_for_bulk_load(&mut self) {}
    pub fn increase_parallelism(&mut self, _: i32) {}
    pub fn set_write_buffer_size(&mut self, _: usize) {}
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DBCompressionType {
    None,
    Snappy,
    Zlib,
    Bz2,
    Lz4,
    Lz4hc,
    Zstd,
}

#[derive(Clone, Debug, Default)]
pub struct ReadOptions {}
#[derive(Clone, Debug, Default)]
pub struct WriteOptions {}
impl WriteOptions {
    pub fn new() -> Self {
        WriteOptions {}
    }
    pub fn set_sync(&mut self, _: bool) {}
    pub fn disable_wal(&mut self, _: bool) {}
}

#[derive(Clone, Copy, Debug)]
pub enum Direction {
    Forward,
    Reverse,
}

#[derive(Clone, Copy, Debug)]
pub enum IteratorMode<'a> {
    Start,
    End,
    From(&'a [u8], Direction),
}

pub type KVBytes = (Box<[u8]>, Box<[u8]>);

/// A value read from the database.
pub struct DBVector(Box<[u8]>);
impl Deref for DBVector {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for DBVector {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl DBVector {
    pub fn to_utf8(&self) -> Option<&str> {
        std::str::from_utf8(&self.0).ok()
    }
}
impl fmt::Debug for DBVector {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}

type Map = BTreeMap<Vec<u8>, Arc<[u8]>>;

pub struct DB {
    path: PathBuf,
    map: RwLock<Arc<Map>>,
    log: Option<RwLock<File>>,
    _lock: Option<Lock>,
}

/// Directories that are open for writing: RocksDB lets only one open them so.
static LOCKS: Mutex<Vec<PathBuf>> = Mutex::new(Vec::new());
struct Lock(PathBuf);
impl Lock {
    fn of(path: &Path) -> Result<Lock, Error> {
        let path = path.canonicalize().unwrap_or_else(|_| path.to_owned());
        let mut held = LOCKS.lock().unwrap_or_else(|e| e.into_inner());
        if held.contains(&path) {
            return Err(Error::new(format!(
                "IO error: lock {}/LOCK: No locks available",
                path.display()
            )));
        }
        held.push(path.clone());
        Ok(Lock(path))
    }
}
impl Drop for Lock {
    fn drop(&mut self) {
        LOCKS.lock().unwrap_or_else(|e| e.into_inner()).retain(|p| *p != self.0);
    }
}

impl fmt::Debug for DB {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "RocksDB {{ path: {:?} }}", self.path)
    }
}

#[derive(Default)]
pub struct WriteBatch {
    ops: Vec<(Vec<u8>, Option<Vec<u8>>)>,
}
impl WriteBatch {
    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&mut self, k: K, v: V) -> Result<(), Error> {
        self.ops.push((k.as_ref().to_vec(), Some(v.as_ref().to_vec())));
        Ok(())
    }
    pub fn delete<K: AsRef<[u8]>>(&mut self, k: K) -> Result<(), Error> {
        self.ops.push((k.as_ref().to_vec(), None));
        Ok(())
    }
    pub fn len(&self) -> usize {
        self.ops.len()
    }
    pub fn is_empty(&self) -> bool {
        self.ops.is_empty()
    }
    pub fn clear(&mut self) {
        self.ops.clear()
    }
}

fn io<T>(r: std::io::Result<T>, what: &str) -> Result<T, Error> {
    r.map_err(|e| Error::new(format!("IO error: {}: {}", what, e)))
}

/// One log record per atomic write: count, then (klen, vlen or MAX for a deletion, key, value)*.
fn record(ops: &[(Vec<u8>, Option<Vec<u8>>)]) -> Vec<u8> {
    let mut rec = Vec::new();
    rec.extend_from_slice(&(ops.len() as u32).to_le_bytes());
    for (k, v) in ops {
        rec.extend_from_slice(&(k.len() as u32).to_le_bytes());
        let vlen = v.as_ref().map_or(std::u32::MAX, |v| v.len() as u32);
        rec.extend_from_slice(&vlen.to_le_bytes());
        rec.extend_from_slice(k);
        if let Some(v) = v {
            rec.extend_from_slice(v);
        }
    }
    rec
}

fn u32_at(b: &[u8], at: usize) -> Option<usize> {
    let s = b.get(at..at + 4)?;
    Some(u32::from_le_bytes([s[0], s[1], s[2], s[3]]) as usize)
}

/// Splits a log into its records; a torn last record is dropped, as RocksDB's log replay does.
pub(crate) fn replay(b: &[u8]) -> Vec<(usize, Vec<(Vec<u8>, Option<Vec<u8>>)>)> {
    let mut out = Vec::new();
    let mut at = 0;
    'rec: while at < b.len() {
        let mut p = at + 4;
        let n = match u32_at(b, at) {
            Some(n) => n,
            None => break,
        };
        let mut ops = Vec::new();
        for _ in 0..n {
            let (kl, vl) = match (u32_at(b, p), u32_at(b, p + 4)) {
                (Some(k), Some(v)) => (k, v),
                _ => break 'rec,
            };
            p += 8;
            let k = match b.get(p..p + kl) {
                Some(k) => k.to_vec(),
                None => break 'rec,
            };
            p += kl;
            if vl == std::u32::MAX as usize {
                ops.push((k, None));
            } else {
                match b.get(p..p + vl) {
                    Some(v) => ops.push((k, Some(v.to_vec()))),
                    None => break 'rec,
                }
                p += vl;
            }
        }
        out.push((p, ops));
        at = p;
    }
    out
}

fn apply(map: &mut Map, ops: Vec<(Vec<u8>, Option<Vec<u8>>)>) {
    for (k, v) in ops {
        match v {
            Some(v) => {
                map.insert(k, Arc::from(v));
            }
            None => {
                map.remove(&k);
            }
        }
    }
}

pub const LOG_NAME: &str = "KV.log";

impl DB {
    pub fn open<P: AsRef<Path>>(opts: &Options, path: P) -> Result<DB, Error> {
        let path = path.as_ref().to_owned();
        hooks::on_open(&path, opts.read_only)?;
        let file = path.join(LOG_NAME);
        let exists = file.is_file();
        if !exists && (opts.read_only || !opts.create) {
            return Err(Error::new(format!(
                "Invalid argument: {}: does not exist (create_if_missing is false)",
                path.display()
            )));
        }
        if exists && opts.error_if_exists {
            return Err(Error::new(format!("Invalid argument: {}: exists", path.display())));
        }
        let lock = if opts.read_only {
            None
        } else {
            io(std::fs::create_dir_all(&path), "mkdir")?;
            Some(Lock::of(&path)?)
        };
        let mut map = Map::new();
        let mut whole = 0;
        if exists {
            let mut buf = Vec::new();
            io(io(File::open(&file), "open")?.read_to_end(&mut buf), "read")?;
            for (end, ops) in replay(&buf) {
                apply(&mut map, ops);
                whole = end as u64;
            }
        }
        let log = if opts.read_only {
            None
        } else {
            let f = io(OpenOptions::new().create(true).append(true).open(&file), "open")?;
            // what was torn is not continued
            io(f.set_len(whole), "truncate")?;
            Some(RwLock::new(f))
        };
        Ok(DB { path, map: RwLock::new(Arc::new(map)), log, _lock: lock })
    }

    pub fn open_default<P: AsRef<Path>>(path: P) -> Result<DB, Error> {
        let mut opts = Options::default();
        opts.create_if_missing(true);
        DB::open(&opts, path)
    }

    pub fn open_for_read_only<P: AsRef<Path>>(
        opts: &Options,
        path: P,
        _error_if_log_file_exist: bool,
    ) -> Result<DB, Error> {
        let mut opts = opts.clone();
        opts.set_read_only(true);
        DB::open(&opts, path)
    }

    pub fn destroy<P: AsRef<Path>>(_: &Options, path: P) -> Result<(), Error> {
        let _ = std::fs::remove_file(path.as_ref().join(LOG_NAME));
        Ok(())
    }

    pub fn path(&self) -> &Path {
        &self.path
    }

    fn commit(&self, ops: Vec<(Vec<u8>, Option<Vec<u8>>)>) -> Result<(), Error> {
        let log = match &self.log {
            Some(l) => l,
            None => {
                return Err(Error::new(
                    "Not implemented: Not supported operation in read only mode.".to_owned(),
                ))
            }
        };
        hooks::on_write(&self.path, &ops)?;
        let rec = record(&ops);
        let mut f = log.write().unwrap();
        io(f.write_all(&rec), "append")?;
        let mut guard = self.map.write().unwrap();
        apply(Arc::make_mut(&mut guard), ops);
        Ok(())
    }

    pub fn put<K: AsRef<[u8]>, V: AsRef<[u8]>>(&self, key: K, value: V) -> Result<(), Error> {
        self.commit(vec![(key.as_ref().to_vec(), Some(value.as_ref().to_vec()))])
    }
    pub fn put_opt<K: AsRef<[u8]>, V: AsRef<[u8]>>(
        &self,
        key: K,
        value: V,
        _: &WriteOptions,
    ) -> Result<(), Error> {
        self.put(key, value)
    }
    pub fn delete<K: AsRef<[u8]>>(&self, key: K) -> Result<(), Error> {
        self.commit(vec![(key.as_ref().to_vec(), None)])
    }
    pub fn write(&self, batch: WriteBatch) -> Result<(), Error> {
        self.commit(batch.ops)
    }
    pub fn write_opt(&self, batch: WriteBatch, _: &WriteOptions) -> Result<(), Error> {
        self.commit(batch.ops)
    }
    pub fn flush(&self) -> Result<(), Error> {
        Ok(())
    }

    pub fn get<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<DBVector>, Error> {
        hooks::on_get(&self.path, key.as_ref())?;
        let map = self.map.read().unwrap();
        Ok(map.get(key.as_ref()).map(|v| DBVector(v.to_vec().into_boxed_slice())))
    }
    pub fn get_opt<K: AsRef<[u8]>>(
        &self,
        key: K,
        _: &ReadOptions,
    ) -> Result<Option<DBVector>, Error> {
        self.get(key)
    }
    pub fn get_pinned<K: AsRef<[u8]>>(&self, key: K) -> Result<Option<DBVector>, Error> {
        self.get(key)
    }

    /// Iterates over the state of the database at the time of the call.
    pub fn iterator(&self, mode: IteratorMode<'_>) -> DBIterator {
        let from: &[u8] = match &mode {
            IteratorMode::From(key, _) => key,
            _ => &[],
        };
        let ticket = hooks::on_scan(&self.path, from);
        let map = self.map.read().unwrap().clone();
        DBIterator::new(map, mode, ticket)
    }
    pub fn full_iterator(&self, mode: IteratorMode<'_>) -> DBIterator {
        self.iterator(mode)
    }
    pub fn prefix_iterator<P: AsRef<[u8]>>(&self, prefix: P) -> DBIterator {
        self.iterator(IteratorMode::From(prefix.as_ref(), Direction::Forward))
    }

    pub fn compact_range<S: AsRef<[u8]>, E: AsRef<[u8]>>(&self, _: Option<S>, _: Option<E>) {}
}

pub struct DBIterator {
    map: Arc<Map>,
    next: Option<Vec<u8>>,
    forward: bool,
    _ticket: hooks::Ticket,
}

impl DBIterator {
    fn new(map: Arc<Map>, mode: IteratorMode<'_>, ticket: hooks::Ticket) -> DBIterator {
        let mut it = DBIterator { map, next: None, forward: true, _ticket: ticket };
        it.set_mode(mode);
        it
    }
    pub fn set_mode(&mut self, mode: IteratorMode<'_>) {
        match mode {
            IteratorMode::Start => {
                self.forward = true;
                self.next = self.map.keys().next().cloned();
            }
            IteratorMode::End => {
                self.forward = false;
                self.next = self.map.keys().next_back().cloned();
            }
            IteratorMode::From(k, Direction::Forward) => {
                self.forward = true;
                self.next = self.map.range(k.to_vec()..).next().map(|e| e.0.clone());
            }
            IteratorMode::From(k, Direction::Reverse) => {
                self.forward = false;
                self.next = self.map.range(..=k.to_vec()).next_back().map(|e| e.0.clone());
            }
        }
    }
    pub fn valid(&self) -> bool {
        self.next.is_some()
    }
}

impl Iterator for DBIterator {
    type Item = KVBytes;
    fn next(&mut self) -> Option<KVBytes> {
        use std::ops::Bound::{Excluded, Unbounded};
        let k = self.next.take()?;
        let v = self.map[&k].to_vec().into_boxed_slice();
        self.next = if self.forward {
            self.map.range((Excluded(k.clone()), Unbounded)).next().map(|e| e.0.clone())
        } else {
            self.map.range((Unbounded, Excluded(k.clone()))).next_back().map(|e| e.0.clone())
        };
        Some((k.into_boxed_slice(), v))
    }
}

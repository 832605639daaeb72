//! Used by the checks only; nothing in carmen-core refers to it.

use super::{replay, Error, LOG_NAME};
use std::collections::HashMap;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// Which operation is made to fail: the n-th (from 0) write, point read or open since `reset`.
#[derive(Clone, Copy, Debug, Default, PartialEq)]
pub struct Faults {
    pub write: Option<u64>,
    pub get: Option<u64>,
    pub open: Option<u64>,
    /// Keep failing every write from that one on (a full disk), not only that one.
    pub write_sticky: bool,
}

#[derive(Default)]
struct State {
    faults: Faults,
    /// scans in the order in which they began: directory and the key they start from
    scans: Vec<(PathBuf, Vec<u8>)>,
    /// the order in which scans may begin: directory -> position in the schedule
    turn: HashMap<PathBuf, usize>,
    current: usize,
    /// positions that have begun
    begun: Vec<usize>,
    missed: bool,
}

static WRITES: AtomicU64 = AtomicU64::new(0);
static GETS: AtomicU64 = AtomicU64::new(0);
static OPENS: AtomicU64 = AtomicU64::new(0);
static STATE: Mutex<Option<State>> = Mutex::new(None);
static TURN: Condvar = Condvar::new();

fn with<R>(f: impl FnOnce(&mut State) -> R) -> R {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(State::default))
}

pub fn reset() {
    WRITES.store(0, Ordering::SeqCst);
    GETS.store(0, Ordering::SeqCst);
    OPENS.store(0, Ordering::SeqCst);
    with(|s| *s = State::default());
}

pub fn set_faults(f: Faults) {
    with(|s| s.faults = f);
}

pub fn counts() -> (u64, u64, u64) {
    (WRITES.load(Ordering::SeqCst), GETS.load(Ordering::SeqCst), OPENS.load(Ordering::SeqCst))
}

/// The scans since `reset`, in order: directory and first key.
pub fn scans() -> Vec<(PathBuf, Vec<u8>)> {
    with(|s| s.scans.clone())
}

/// Scans of the listed directories begin in the listed order. A scan whose turn does not come
/// within two seconds begins anyway, and `missed` tells so.
pub fn set_schedule(order: &[PathBuf]) {
    with(|s| {
        s.turn = order.iter().cloned().enumerate().map(|(i, p)| (p, i)).collect();
        s.current = 0;
        s.begun.clear();
        s.missed = false;
    });
}

pub fn schedule_played() -> (Vec<usize>, bool) {
    with(|s| (s.begun.clone(), s.missed))
}

pub(crate) fn on_open(path: &Path, _read_only: bool) -> Result<(), Error> {
    let n = OPENS.fetch_add(1, Ordering::SeqCst);
    if with(|s| s.faults.open == Some(n)) {
        return Err(Error::new(format!("IO error: injected failure opening {}", path.display())));
    }
    Ok(())
}

pub(crate) fn on_write(path: &Path, _ops: &[(Vec<u8>, Option<Vec<u8>>)]) -> Result<(), Error> {
    let n = WRITES.fetch_add(1, Ordering::SeqCst);
    let fail = with(|s| match s.faults.write {
        Some(f) => n == f || (s.faults.write_sticky && n > f),
        None => false,
    });
    if fail {
        return Err(Error::new(format!("IO error: injected failure writing {}", path.display())));
    }
    Ok(())
}

pub(crate) fn on_get(path: &Path, _key: &[u8]) -> Result<(), Error> {
    let n = GETS.fetch_add(1, Ordering::SeqCst);
    if with(|s| s.faults.get == Some(n)) {
        return Err(Error::new(format!("IO error: injected failure reading {}", path.display())));
    }
    Ok(())
}

/// Held by a scan; when the scan is over, the next one in the schedule may begin.
pub struct Ticket(Option<usize>);
impl Drop for Ticket {
    fn drop(&mut self) {
        if let Some(pos) = self.0 {
            with(|s| {
                if s.current <= pos {
                    s.current = pos + 1;
                }
            });
            TURN.notify_all();
        }
    }
}

pub(crate) fn on_scan(path: &Path, from: &[u8]) -> Ticket {
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    let pos = {
        let s = g.get_or_insert_with(State::default);
        s.scans.push((path.to_owned(), from.to_vec()));
        s.turn.remove(path)
    };
    if let Some(pos) = pos {
        let deadline = Instant::now() + Duration::from_secs(2);
        loop {
            let s = g.get_or_insert_with(State::default);
            if s.current == pos {
                break;
            }
            let now = Instant::now();
            if now >= deadline {
                s.missed = true;
                break;
            }
            g = TURN.wait_timeout(g, deadline - now).unwrap_or_else(|e| e.into_inner()).0;
        }
        g.get_or_insert_with(State::default).begun.push(pos);
    }
    Ticket(pos)
}

/// The atomic writes in a database's log: (bytes of log up to and including it, keys it wrote).
pub fn log_records(dir: &Path) -> Vec<(usize, Vec<Vec<u8>>)> {
    let b = std::fs::read(dir.join(LOG_NAME)).unwrap_or_default();
    replay(&b)
        .into_iter()
        .map(|(end, ops)| (end, ops.into_iter().map(|(k, _)| k).collect()))
        .collect()
}

/// The pairs a database's log leaves, in key order.
pub fn dump(dir: &Path) -> Vec<(Vec<u8>, Vec<u8>)> {
    let b = std::fs::read(dir.join(LOG_NAME)).unwrap_or_default();
    let mut m = std::collections::BTreeMap::new();
    for (_, ops) in replay(&b) {
        for (k, v) in ops {
            match v {
                Some(v) => {
                    m.insert(k, v);
                }
                None => {
                    m.remove(&k);
                }
            }
        }
    }
    m.into_iter().collect()
}

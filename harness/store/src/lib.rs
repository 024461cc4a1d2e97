//! A key-value storage that keeps a log of what it was asked and fails on demand.

use bd_key_value::{Storage, Store};
use parking_lot::Mutex;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
  Get(String),
  Set(String, String),
  Delete(String),
}

#[derive(Default)]
pub struct Mem {
  pub map: Mutex<HashMap<String, String>>,
  pub ops: Mutex<Vec<Op>>,
  /// Bits: fail the next get, set, delete with that chance in 256.
  pub fail_get: AtomicU64,
  pub fail_set: AtomicU64,
  pub fail_del: AtomicU64,
  pub rng: Mutex<Option<vh::Rng>>,
  pub failed: AtomicU64,
  /// Spins this many times inside an operation, to widen races.
  pub delay: AtomicU64,
}

impl Mem {
  pub fn new(seed: u64) -> Arc<Self> {
    let m = Self::default();
    *m.rng.lock() = Some(vh::Rng::new(seed));
    Arc::new(m)
  }
  pub fn faults(&self, get: u64, set: u64, del: u64) {
    self.fail_get.store(get, Ordering::SeqCst);
    self.fail_set.store(set, Ordering::SeqCst);
    self.fail_del.store(del, Ordering::SeqCst);
  }
  pub fn store(self: &Arc<Self>) -> Arc<Store> {
    Arc::new(Store::new(Box::new(Handle(self.clone()))))
  }
  pub fn raw(&self, key: &str) -> Option<String> {
    self.map.lock().get(key).cloned()
  }
  pub fn put_raw(&self, key: &str, v: &str) {
    self.map.lock().insert(key.into(), v.into());
  }
  pub fn take_ops(&self) -> Vec<Op> {
    std::mem::take(&mut *self.ops.lock())
  }
  fn trips(&self, chance: &AtomicU64) -> bool {
    let c = chance.load(Ordering::SeqCst);
    let hit = c > 0 && self.rng.lock().as_mut().unwrap().chance(c, 256);
    if hit {
      self.failed.fetch_add(1, Ordering::SeqCst);
    }
    hit
  }
  fn pause(&self) {
    let d = self.delay.load(Ordering::Relaxed);
    if d > 0 {
      let n = self.rng.lock().as_mut().unwrap().below(d);
      if n % 7 == 0 {
        std::thread::yield_now();
      } else {
        std::thread::sleep(std::time::Duration::from_micros(n));
      }
    }
  }
}

pub struct Handle(pub Arc<Mem>);

impl Storage for Handle {
  fn set_string(&self, key: &str, value: &str) -> anyhow::Result<()> {
    self.0.pause();
    self.0.ops.lock().push(Op::Set(key.into(), value.into()));
    if self.0.trips(&self.0.fail_set) {
      anyhow::bail!("injected set failure");
    }
    self.0.map.lock().insert(key.into(), value.into());
    Ok(())
  }
  fn get_string(&self, key: &str) -> anyhow::Result<Option<String>> {
    self.0.pause();
    self.0.ops.lock().push(Op::Get(key.into()));
    if self.0.trips(&self.0.fail_get) {
      anyhow::bail!("injected get failure");
    }
    Ok(self.0.map.lock().get(key).cloned())
  }
  fn delete(&self, key: &str) -> anyhow::Result<()> {
    self.0.pause();
    self.0.ops.lock().push(Op::Delete(key.into()));
    if self.0.trips(&self.0.fail_del) {
      anyhow::bail!("injected delete failure");
    }
    self.0.map.lock().remove(key);
    Ok(())
  }
}

//! K02: one device identifier, from racing first requests, over restarts and storage failures.

use crate::store::{Mem, Op};
use base64::Engine;
use bd_device::Device;
use std::collections::HashSet;
use std::sync::atomic::Ordering;
use std::sync::{Arc, Barrier};
use std::time::Duration;
use vh::Check;

/// The string the store holds under some key, decoded here.
pub fn stored_strings(mem: &Mem) -> Vec<String> {
  mem
    .map
    .lock()
    .values()
    .filter_map(|t| base64::engine::general_purpose::STANDARD.decode(t).ok())
    .filter_map(|b| bincode::deserialize::<String>(&b).ok())
    .collect()
}

pub fn run(c: &Check) {
  c.rule("Each case: a chain of processes over one storage; in each, 1-8 threads race for the identifier with delays inside storage operations; between and during them the storage may fail, lose or corrupt the entry. Distinct by the sequence of (threads, fault, identifier kept or renewed).");
  let n = c.n(400, 8000);
  c.cases(n, Duration::from_secs(c.n(20, 400)), |i, r| {
    let mem = Mem::new(r.u64());
    let mut seen: HashSet<String> = HashSet::new();
    let mut shape = vec![];
    // What a process starting now must find.
    let mut kept: Option<String> = None;
    // One that an earlier version of the application made.
    if r.chance(1, 5) {
      let id = match r.below(5) {
        0 => r.string(),
        1 => format!(" {} ", uuid::Uuid::from_u128(u128::from(r.u64()) << 64 | u128::from(r.u64()))),
        2 => format!("{:032X}", r.u64()),
        3 => r.ident(200),
        _ => uuid::Uuid::from_u128(u128::from(r.u64()) << 64 | u128::from(r.u64())).to_string().to_uppercase(),
      };
      mem.store().set(&bd_key_value::Key::new("device.state"), &id);
      c.count("chains that begin with an identifier");
      seen.insert(id.clone());
      kept = Some(id);
    }
    for p in 0 .. 2 + r.idx(4) {
      let fault = r.below(8);
      mem.faults(0, 0, 0);
      match fault {
        1 => {
          mem.map.lock().clear();
          kept = None;
        },
        2 => {
          // A cut text is never a value.
          for v in mem.map.lock().values_mut() {
            v.truncate(v.len() / 2 + 1);
            v.push('*');
          }
          kept = None;
        },
        3 => mem.faults(256, 0, 0),
        4 => mem.faults(0, 256, 0),
        5 => mem.faults(100, 100, 100),
        _ => {},
      }
      mem.delay.store(if r.bool() { 300 } else { 0 }, Ordering::SeqCst);
      mem.take_ops();
      let fails = (3 ..= 5).contains(&fault);
      let had = stored_strings(&mem);
      let device = Arc::new(Device::new(mem.store()));
      let threads = 1 + r.idx(8);
      let barrier = Barrier::new(threads);
      let ids: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0 .. threads)
          .map(|t| {
            let (device, barrier) = (device.clone(), &barrier);
            s.spawn(move || {
              barrier.wait();
              if t % 3 == 2 {
                std::thread::yield_now();
              }
              let a = device.id();
              let b = device.id();
              vec![a, b]
            })
          })
          .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
      });
      let distinct: HashSet<&String> = ids.iter().collect();
      c.ensure(distinct.len() == 1, "two-identifiers-in-a-process", || format!("case {i} process {p}: {distinct:?}"));
      let id = ids[0].clone();
      c.ensure(had.contains(&id) || !id.is_empty() && uuid::Uuid::parse_str(&id).is_ok(), "not-an-identifier", || format!("case {i}: {id:?}"));
      let sets = mem.take_ops().iter().filter(|o| matches!(o, Op::Set(..))).count();
      c.ensure(sets <= 1, "stored-more-than-once", || format!("case {i} process {p}: {sets} writes"));
      if let (Some(k), false) = (&kept, fails) {
        c.count("restart over an intact entry");
        c.ensure(*k == id, "identifier-changed", || format!("case {i} process {p}: {id} after {k}"));
        c.ensure(sets == 0, "written-again", || format!("case {i} process {p}"));
      } else if !had.contains(&id) {
        c.count("fresh identifier");
        c.ensure(!seen.contains(&id), "identifier-reused", || format!("case {i} process {p}: {id}"));
      }
      if !fails {
        c.ensure(stored_strings(&mem).contains(&id), "not-stored", || format!("case {i} process {p}: {id} is not in the storage"));
        kept = Some(id.clone());
      } else {
        c.count("process with failing storage");
        // Later processes must agree with the storage if it holds one.
        kept = stored_strings(&mem).into_iter().next();
        mem.faults(0, 0, 0);
        let again = device.id();
        c.ensure(again == id, "changed-within-process", || format!("case {i} process {p}: {again} after {id}"));
      }
      c.saw("identifiers", &id);
      shape.push((threads, fault, seen.contains(&id)));
      seen.insert(id);
    }
    c.eval(Some(vh::hash_of(&shape)));
    c.sample(|| format!("case {i}: (threads, fault, kept) {shape:?}"));
  });
}

//! What a kill leaves behind: every state of the file between any two instructions, and real kills.
use crate::ring::*;
use crate::steps::{run as step, States, What};
use bd_buffer::buffer::{RingBuffer, RingBufferConsumer, RingBufferCursorConsumer};
use bd_buffer::{AbslCode, Error};
use std::collections::HashSet;
use std::os::fd::AsRawFd;
use std::path::Path;
use std::time::Duration;
use vh::{Check, Rng, Scratch};

pub fn run(c: &Check) {
  c.rule("cases are histories on one file, stepped through instruction by instruction, or runs of a process that is killed; non-trivial: states of the file from inside of a call, which were opened and read; distinct by file content");
  let dir = Scratch::new();
  if c.only.is_none_or(|n| n < 1_000_000) {
    c.cases(c.n(100, 5_000), Duration::from_secs(c.n(20, 700)), |case, r: &mut Rng| stepped(c, case, dir.path(), r));
  }
  crate::kill::run(c, dir.path());
}

/// What opening this file and reading all of it gives; None if it is reported as lost.
fn list(c: &Check, what: &dyn Fn() -> String, nv: Nv, cursor: bool, state: &[u8], path: &Path) -> Option<Vec<u32>> {
  std::fs::write(path, state).unwrap();
  let s = stats();
  let ring = match nv.open(path, s.clone()) {
    Ok(r) => r,
    Err(Error::AbslStatus(AbslCode::DataLoss, _)) => return None,
    Err(e) => {
      c.violation("open", &format!("{}: {e}", what()));
      return None;
    },
  };
  let mut out = vec![];
  let mut q = if cursor { Err(ring.clone().register_cursor_consumer().unwrap()) } else { Ok(ring.clone().register_consumer().unwrap()) };
  let read = |q: &mut Result<Box<dyn RingBufferConsumer>, Box<dyn RingBufferCursorConsumer>>| -> Result<Option<u32>, String> {
    let d = match q {
      Ok(q) => q.start_read(false),
      Err(q) => q.start_read(false),
    };
    let d = match d {
      Ok(d) => identify(d).ok_or_else(|| format!("{} bytes that are no record", d.len()))?,
      Err(Error::AbslStatus(AbslCode::Unavailable, _)) => return Ok(None),
      Err(e) => return Err(e.to_string()),
    };
    let k = match q {
      Ok(q) => q.finish_read(),
      Err(q) => q.advance_read_pointer(),
    };
    k.map_err(|e| e.to_string())?;
    Ok(Some(d))
  };
  loop {
    match read(&mut q) {
      Ok(Some(id)) => out.push(id),
      Ok(None) => break,
      Err(e) => {
        c.violation("read", &format!("{}: {e}", what()));
        break;
      },
    }
    if out.len() > 1_000 {
      c.violation("endless", &what());
      break;
    }
  }
  // And it goes on working.
  let mut p = ring.clone().register_producer().unwrap();
  for i in 0 .. 3u32 {
    let id = 0xeeee_0000 + i;
    let size = (nv.space() / 3 - 2 * i - nv.extra()) as usize;
    let k = p.reserve(size as u32, false).map(|b| b.copy_from_slice(&content(id, size)));
    let k = k.and_then(|()| p.commit());
    let d = read(&mut q);
    c.ensure(k.is_ok() && d == Ok(Some(id)), "unusable", || format!("{}: a record of {size} bytes afterwards: {k:?}, {d:?}", what()));
  }
  Some(out)
}

fn subsequence(a: &[u32], b: &[u32]) -> bool {
  let mut b = b.iter();
  a.iter().all(|x| b.any(|y| x == y))
}

fn stepped(c: &Check, case: u64, dir: &Path, r: &mut Rng) {
  let nv = Nv { size: 40 + *r.pick(&[48u32, 64, 100, 128, 200]) + r.below(3) as u32, crc: r.chance(3, 4), overwrite: r.bool(), block_read: false };
  let cursor = !nv.overwrite && r.bool();
  let path = dir.join(format!("s{case}"));
  let copy = dir.join("copy");
  let what = format!("case {case}, {nv:?}, cursor {cursor}");
  let mut log: Vec<String> = vec![];
  let mut model: Vec<u32> = vec![];
  let mut next = 0;
  for life in 0 .. 3 {
    // Opening, or creating, in steps.
    let f = std::fs::OpenOptions::new().create(true).read(true).write(true).truncate(false).open(&path).unwrap();
    let s = stats();
    log.push(if life == 0 { "create".into() } else { "open".into() });
    let ring = if r.chance(1, 12) {
      let (ring, states) = step(What::File(f.as_raw_fd()), || nv.open(&path, s));
      judge(c, &what, &log, nv, cursor, &states, &model, &model, false, &copy);
      ring
    } else {
      nv.open(&path, s)
    };
    drop(f);
    let Ok(ring) = ring else {
      c.violation("open", &format!("{what}: {log:?}"));
      return;
    };
    // Where the file is mapped.
    let base = mapped(&path);
    let mut p = ring.clone().register_producer().unwrap();
    let mut q = if cursor { Err(ring.clone().register_cursor_consumer().unwrap()) } else { Ok(ring.clone().register_consumer().unwrap()) };
    let mut reading = 0usize;
    // Its reading was begun, which may cost it if it is not ended.
    let mut begun = false;
    for _ in 0 .. 4 + r.below(14) {
      if c.violated() {
        return;
      }
      let m = What::Memory(base, nv.size as usize);
      match r.below(10) {
        0 ..= 4 => {
          let size = 4 + r.below(u64::from(nv.space() * 2 / 3 - nv.extra())) as usize;
          next += 1;
          let data = content(next, size);
          let (k, states) = step(m, || p.reserve(size as u32, false).map(|b| (b.as_mut_ptr() as usize, b.len())));
          log.push(format!("reserve({size})={}", code(&k)));
          // Those that made room are the first ones.
          let after = finally(c, &what, &log, nv, cursor, &states, &copy);
          let all: Vec<u32> = model.clone();
          let ok = after.as_ref().is_some_and(|a| all.ends_with(a) || (begun && !all.is_empty() && all[1 ..].ends_with(a)));
          c.ensure(ok && (nv.overwrite || after.as_ref().map(Vec::len).unwrap_or(0) + usize::from(begun) >= all.len()), "state", || format!("{what}: {log:?}: the file holds {after:?} of {all:?}"));
          let mut after = after.unwrap_or_default();
          if begun && !all.is_empty() && (k.is_err() || !nv.overwrite || reading > 0) && !after.contains(&all[0]) {
            after.insert(0, all[0]);
          }
          judge(c, &what, &log, nv, cursor, &states, &model, &after, begun, &copy);
          model = after;
          if let Ok((at, n)) = k {
            // SAFETY: what was just reserved.
            let b = unsafe { std::slice::from_raw_parts_mut(at as *mut u8, n) };
            let ((), states) = step(What::Memory(base, nv.size as usize), || b.copy_from_slice(&data));
            judge(c, &what, &log, nv, cursor, &states, &model, &model, begun, &copy);
            // (Only with its CRC is a record known not to be complete.)
            if nv.crc && r.chance(1, 12) {
              log.push("given up".into());
              break;
            }
            let (k, states) = step(What::Memory(base, nv.size as usize), || p.commit());
            log.push(format!("commit={}", code(&k)));
            let mut after = model.clone();
            after.push(next);
            judge(c, &what, &log, nv, cursor, &states, &model, &after, begun, &copy);
            model = after;
          }
        },
        5 ..= 7 => {
          if reading > 0 && !cursor {
            continue;
          }
          let (k, states) = step(m, || match &mut q {
            Ok(q) => q.start_read(false).map(identify),
            Err(q) => q.start_read(false).map(identify),
          });
          log.push(format!("read={:?}", k.as_ref().ok()));
          if let Ok(id) = k {
            c.ensure(id.is_some() && id == model.get(reading).copied(), "record", || format!("{what}: {log:?}: {model:?}"));
            reading += 1;
            begun |= !cursor && nv.crc;
          } else {
            c.ensure(model.len() == reading, "record", || format!("{what}: {log:?}: nothing to read, and {model:?}"));
          }
          judge(c, &what, &log, nv, cursor, &states, &model, &model, begun, &copy);
        },
        _ => {
          if reading == 0 {
            continue;
          }
          let (k, states) = step(m, || match &mut q {
            Ok(q) => q.finish_read(),
            Err(q) => q.advance_read_pointer(),
          });
          log.push(format!("finish={}", code(&k)));
          reading -= 1;
          let after = model[1 ..].to_vec();
          judge(c, &what, &log, nv, cursor, &states, &model, &after, begun, &copy);
          begun = false;
          model = after;
        },
      }
    }
    // The restart.
    drop((p, q, ring));
    log.push("close".into());
    if begun {
      // Whether it is still there is up to the implementation.
      let state = std::fs::read(&path).unwrap();
      let l = list(c, &|| format!("{what}: {log:?}"), nv, cursor, &state, &copy).unwrap_or_default();
      if !model.is_empty() && !l.contains(&model[0]) {
        model.remove(0);
      }
    }
  }
  let _ = std::fs::remove_file(&path);
}

fn mapped(path: &Path) -> usize {
  let maps = std::fs::read_to_string("/proc/self/maps").unwrap();
  let p = std::fs::canonicalize(path).unwrap();
  let l = maps.lines().find(|l| l.ends_with(p.to_str().unwrap())).expect("the file is mapped");
  usize::from_str_radix(l.split('-').next().unwrap(), 16).unwrap()
}

fn finally(c: &Check, what: &str, log: &[String], nv: Nv, cursor: bool, s: &States, copy: &Path) -> Option<Vec<u32>> {
  let last = s.iter().last().unwrap();
  list(c, &|| format!("{what}: {log:?}, after it"), nv, cursor, last, copy)
}

/// Every state between two: what is there before and after it is there, and nothing else.
#[allow(clippy::too_many_arguments)]
fn judge(c: &Check, what: &str, log: &[String], nv: Nv, cursor: bool, s: &States, before: &[u32], after: &[u32], begun: bool, copy: &Path) {
  thread_local!(static SEEN: std::cell::RefCell<HashSet<u64>> = Default::default());
  let mut all = before.to_vec();
  all.extend(after.iter().filter(|x| !before.contains(x)));
  let mut must: Vec<u32> = before.iter().copied().filter(|x| after.contains(x)).collect();
  if begun && !before.is_empty() {
    must.retain(|x| *x != before[0]);
  }
  let n = s.len();
  c.add("instructions looked at", s.steps);
  for (i, state) in s.iter().enumerate() {
    // The same file content gives the same, but what is right changes: only the first state is repeated.
    if i == 0 && n > 1 {
      continue;
    }
    let at = || format!("{what}: {log:?}, in it, state {i} of {n}");
    c.now(at);
    c.sample(at);
    let l = list(c, &at, nv, cursor, state, copy);
    match &l {
      None => {
        c.count("states: reported as lost");
        // Between calls nothing is lost.
        let settled = i + 1 == n && !log.last().is_some_and(|l| l == "create" || l == "open");
        c.ensure(!settled, "lost", || format!("{}: lost, and nothing was going on", at()));
      },
      Some(l) => {
        c.count("states: read");
        c.ensure(subsequence(l, &all) && must.iter().all(|x| l.contains(x)), "records", || {
          format!("{}: {l:?} is read; before it {before:?}, after it {after:?}", at())
        });
      },
    }
    let h = vh::hash_of(&state);
    let new = SEEN.with(|s| s.borrow_mut().insert(h));
    c.eval((new && i > 0 && i + 1 < n).then_some(h));
  }
}

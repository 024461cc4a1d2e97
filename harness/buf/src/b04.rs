//! Damaged files: opened, read, written, recreated.
use crate::ring::*;
use bd_buffer::buffer::{NonVolatileRingBuffer, RingBuffer, RingBufferConsumer, RingBufferCursorConsumer};
use bd_buffer::Error;
use futures::FutureExt;
use std::collections::{HashMap, HashSet};
use std::path::Path;
use std::sync::Arc;
use std::time::Duration;
use vh::{Check, Rng, Scratch};

enum Reader {
  Plain(Box<dyn RingBufferConsumer>),
  Cursor(Box<dyn RingBufferCursorConsumer>),
}

fn ecode(e: Error) -> (&'static str, String) {
  let text = e.to_string();
  (code::<()>(&Err(e)), text)
}

/// A file with a random past. Returns its records: those ever written, and earlier images of the file.
fn past(nv: Nv, cursor: bool, path: &Path, ids: &mut u32, r: &mut Rng) -> (HashMap<u32, usize>, Vec<Vec<u8>>) {
  let mut written = HashMap::new();
  let mut images = vec![];
  for _ in 0 .. r.range(1, 3) {
    let ring = nv.open(path, stats()).expect("open");
    let mut p = ring.clone().register_producer().unwrap();
    let mut c = if cursor {
      Reader::Cursor(ring.clone().register_cursor_consumer().unwrap())
    } else {
      Reader::Plain(ring.clone().register_consumer().unwrap())
    };
    let mut reading = 0;
    // Often all of the same size, a power of two with what goes with it, so that stale records line up.
    let even = r.chance(1, 2).then(|| (*r.pick(&[8u32, 16, 24, 32, 56, 120])).min(nv.space() - nv.extra()));
    for _ in 0 .. r.below(40) {
      if r.chance(3, 5) {
        let size = even.unwrap_or_else(|| 4 + r.below(u64::from(nv.space() / 5)) as u32);
        if nv.block_read && reading > 0 {
          continue;
        }
        if let Ok(b) = p.reserve(size, false) {
          *ids += 1;
          b.copy_from_slice(&content(*ids, size as usize));
          written.insert(*ids, size as usize);
          if r.chance(15, 16) {
            p.commit().unwrap();
          } else {
            break;
          }
        }
      } else {
        match &mut c {
          Reader::Plain(c) => {
            if reading > 0 {
              c.finish_read().unwrap();
              reading = 0;
            } else if c.start_read(false).is_ok() {
              reading = 1;
            }
          },
          Reader::Cursor(c) => {
            if reading > 0 && r.bool() {
              c.advance_read_pointer().unwrap();
              reading -= 1;
            } else if c.start_read(false).is_ok() {
              reading += 1;
            }
          },
        }
      }
      if r.chance(1, 15) {
        images.push(std::fs::read(path).unwrap());
      }
    }
  }
  (written, images)
}

#[derive(Clone, Debug)]
enum Damage {
  Flip(usize, u8),
  Bytes(usize, Vec<u8>),
  Zero(usize, usize),
  Fill(usize, usize, u8),
  Word(usize, u32),
  /// A part of an earlier image.
  Stale(usize, usize, usize),
  /// A part of itself, moved.
  Move(usize, usize, usize),
  Length(usize),
}

fn damage(len: usize, images: usize, words: &[u32], r: &mut Rng) -> Damage {
  let at = match r.below(4) {
    0 => r.idx(40.min(len)),
    _ => r.idx(len),
  };
  let most = *r.pick(&[4usize, 4, 16, 64, 4096]);
  let n = 1 + r.idx(most).min(len - at - 1);
  match r.below(12) {
    0 ..= 2 => Damage::Flip(at, 1 << r.below(8)),
    3 => Damage::Bytes(at, r.bytes(n)),
    4 => Damage::Zero(at, n),
    5 => Damage::Fill(at, n, 0xff),
    6 | 7 => Damage::Word(at & !3, *r.pick(words)),
    8 | 9 if images > 0 => Damage::Stale(r.idx(images), at, n),
    10 => Damage::Move(r.idx(len - n), at, n),
    11 => Damage::Length(match r.below(4) {
      0 => 0,
      1 => r.idx(41),
      2 => len + 1 + r.idx(100),
      _ => r.idx(len),
    }),
    _ => Damage::Flip(at, r.u32() as u8 | 1),
  }
}

/// Where the records of a file lie that are not read, by its control data.
fn starts(f: &[u8], nv: Nv) -> Vec<usize> {
  let word = |at: usize| f.get(at .. at + 4).map(|b| u32::from_ne_bytes(b.try_into().unwrap()) as usize);
  let opt = |at: usize| word(at).filter(|t| *t == 1).and_then(|_| word(at + 4));
  let (Some(last), Some(mut at)) = (opt(12), opt(28)) else { return vec![] };
  let wrap = opt(20);
  let mut out = vec![];
  while out.len() < 500 {
    out.push(at);
    let Some(size) = word(40 + at + nv.extra() as usize - 4) else { break };
    let end = at + nv.extra() as usize + size;
    if at == last {
      out.push(end);
      break;
    }
    at = if wrap.is_some_and(|w| w + 1 == end) { 0 } else { end };
  }
  out.push(wrap.map_or(nv.space() as usize, |w| w + 1));
  out
}

/// The size of a record that makes another follow it than the one that does.
fn jump(f: &[u8], nv: Nv, images: &[Vec<u8>], r: &mut Rng) -> Option<Damage> {
  let from = starts(f, nv);
  let mut to = from.clone();
  if !images.is_empty() && r.bool() {
    to.extend(starts(&images[r.idx(images.len())], nv));
  }
  let from = (!from.is_empty()).then(|| *r.pick(&from))?;
  let to = *r.pick(&to);
  let size = (to as u32).wrapping_sub(from as u32 + nv.extra());
  (from + nv.extra() as usize <= nv.space() as usize).then(|| Damage::Word(40 + from + nv.extra() as usize - 4, size))
}

fn apply(d: &Damage, f: &mut Vec<u8>, images: &[Vec<u8>]) {
  let len = f.len();
  let end = |at: usize, n: usize| (at + n).min(len);
  match d {
    Damage::Flip(at, m) if *at < len => f[*at] ^= m,
    Damage::Bytes(at, b) if *at < len => {
      let e = end(*at, b.len());
      f[*at .. e].copy_from_slice(&b[.. e - at]);
    },
    Damage::Zero(at, n) if *at < len => f[*at .. end(*at, *n)].fill(0),
    Damage::Fill(at, n, b) if *at < len => f[*at .. end(*at, *n)].fill(*b),
    Damage::Word(at, w) if at + 4 <= len => f[*at .. at + 4].copy_from_slice(&w.to_ne_bytes()),
    Damage::Stale(i, at, n) if *at < len => {
      let e = end(*at, *n).min(images[*i].len());
      if *at < e {
        f[*at .. e].copy_from_slice(&images[*i][*at .. e]);
      }
    },
    Damage::Move(from, to, n) if from + n <= len && to + n <= len => f.copy_within(*from .. from + n, *to),
    Damage::Length(n) => f.resize(*n, 0),
    _ => {},
  }
}

pub fn run(c: &Check) {
  c.rule("cases are files with a past that are damaged, opened, read and written; non-trivial: the damaged file was opened and records were read, lost or found damaged; distinct by past and damage");
  let dir = Scratch::new();
  c.cases(c.n(20_000, 400_000), Duration::from_secs(c.n(15, 840)), |case, r: &mut Rng| {
    let path = dir.path().join(format!("b{case}"));
    one(c, case, &path, r);
    let _ = std::fs::remove_file(&path);
  });
}

fn one(c: &Check, case: u64, path: &Path, r: &mut Rng) {
  let cursor = r.chance(2, 5);
  let nv = Nv {
    size: 40 + *r.pick(&[64u32, 100, 128, 256, 512, 1024]) + if r.bool() { 0 } else { r.below(4) as u32 },
    crc: true,
    overwrite: !cursor && r.chance(2, 3),
    block_read: r.chance(1, 3),
  };
  let mut ids = 0;
  let (mut written, images) = past(nv, cursor, path, &mut ids, r);
  let sound = std::fs::read(path).unwrap();
  let mut file = sound.clone();
  let words: Vec<u32> = vec![0, 1, 4, 8, 16, nv.space(), nv.space() - 1, nv.space() - 8, nv.size, u32::MAX, u32::MAX - 7, u32::MAX - 3, 0x8000_0000, r.below(u64::from(nv.space())) as u32, 24, 56];
  let mut damages: Vec<Damage> = (0 .. 1 + r.below(3)).map(|_| damage(file.len(), images.len(), &words, r)).collect();
  if r.chance(1, 40) {
    damages.clear();
  }
  if r.chance(1, 3) {
    let n = 1 + r.idx(2);
    damages = (0 .. n).filter_map(|_| jump(&file, nv, &images, r)).collect();
  }
  for d in &damages {
    apply(d, &mut file, &images);
  }
  // The control data is guarded by a CRC: half of the time the damage is to the records alone.
  if r.bool() && file.len() == sound.len() {
    file[.. 40].copy_from_slice(&sound[.. 40]);
  }
  std::fs::write(path, &file).unwrap();
  let what = format!("case {case}, {nv:?}, cursor {cursor}, damage {damages:?}");
  c.now(|| what.clone());
  c.sample(|| what.clone());
  let s = stats();
  let mut key = None;
  match nv.open(path, s.clone()) {
    Err(e) => {
      let (k, e) = ecode(e);
      c.count(&format!("open: {k}"));
      c.ensure(matches!(k, "DataLoss" | "InvalidArgument"), "open-error", || format!("{what}: {e}"));
    },
    Ok(ring) => {
      c.count("open: ok");
      let got = use_it(c, &what, nv, cursor, &ring, path, &mut written, &mut ids, file == sound, &damages, r);
      let k = snap(&s);
      c.add("damaged records found", k.corrupted);
      c.add("total losses", k.loss);
      if got > 0 || k.corrupted > 0 || k.loss > 0 {
        key = Some(vh::hash_of(&(case, format!("{damages:?}"))));
      }
    },
  }
  // What is done when the file cannot be opened: it is made anew.
  std::fs::remove_file(path).unwrap();
  let ring = match nv.open(path, stats()) {
    Ok(r) => r,
    Err(e) => {
      c.violation("recreate", &format!("{what}: {e}"));
      return;
    },
  };
  let fresh = Arc::clone(&ring);
  let mut p = ring.register_producer().unwrap();
  let mut q = fresh.clone().register_consumer().unwrap();
  let b = p.reserve(10, false).map(|b| b.copy_from_slice(&content(7, 10))).is_ok() && p.commit().is_ok();
  c.ensure(b && q.start_read(false).is_ok_and(|d| d == content(7, 10)), "recreate", || what.clone());
  c.eval(key);
}

#[allow(clippy::too_many_arguments)]
fn use_it(
  c: &Check,
  what: &str,
  nv: Nv,
  cursor: bool,
  ring: &Arc<NonVolatileRingBuffer>,
  path: &Path,
  written: &mut HashMap<u32, usize>,
  ids: &mut u32,
  sound: bool,
  damages: &[Damage],
  r: &mut Rng,
) -> u64 {
  let base = crate::seq::mapped(path);
  let mut p = ring.clone().register_producer().unwrap();
  let mut reader = if cursor {
    Reader::Cursor(ring.clone().register_cursor_consumer().unwrap())
  } else {
    Reader::Plain(ring.clone().register_consumer().unwrap())
  };
  let mut read = 0u64;
  let mut seen: HashSet<u32> = HashSet::new();
  let mut fresh: Vec<u32> = vec![];
  let mut reading = 0u64;
  let mut log: Vec<String> = vec![];
  // All is read, with some new records going in.
  let limit = 3 * u64::from(nv.space() / nv.extra()) + 50;
  let mut steps = 0;
  let mut dry = 0;
  while dry < 6 {
    steps += 1;
    if steps > 20 * limit {
      c.violation("endless", &format!("{what}: reading does not end; {log:?}"));
      break;
    }
    if fresh.len() < 12 && r.chance(1, 3) && !(nv.block_read && reading > 0) {
      let size = 4 + r.below(u64::from(nv.space() / 6)) as u32;
      let k = p.reserve(size, false).map(|b| {
        let inside = b.as_ptr() as usize >= base + 40 && b.as_ptr() as usize + b.len() <= base + nv.size as usize;
        c.ensure(inside && b.len() == size as usize, "outside", || format!("{what}: space outside of the file; {log:?}"));
        *ids += 1;
        b.copy_from_slice(&content(*ids, size as usize));
      });
      log.push(format!("reserve({size})={}", code(&k)));
      if k.is_ok() {
        written.insert(*ids, size as usize);
        fresh.push(*ids);
        if p.commit().is_err() {
          c.violation("commit", what);
        }
      }
    }
    let got = match &mut reader {
      Reader::Plain(q) if r.chance(1, 3) => q.read().now_or_never().unwrap_or_else(|| Err(Error::AbslStatus(bd_buffer::AbslCode::Unavailable, String::new()))),
      Reader::Plain(q) => q.start_read(false),
      Reader::Cursor(q) if r.chance(1, 3) => q.read().now_or_never().unwrap_or_else(|| Err(Error::AbslStatus(bd_buffer::AbslCode::Unavailable, String::new()))),
      Reader::Cursor(q) => q.start_read(false),
    };
    let done = match got {
      Ok(d) => {
        let (a, n) = (d.as_ptr() as usize, d.len());
        if a < base + 40 || a + n > base + nv.size as usize {
          c.violation("outside", &format!("{what}: a record outside of the file; {log:?}"));
          return read;
        }
        let id = identify(d).filter(|i| written.get(i) == Some(&n));
        log.push(format!("read {id:?}"));
        match id {
          None => {
            c.violation("wrong-data", &format!("{what}: {n} bytes were read that were never a record; {log:?}"));
          },
          Some(i) => {
            // (Unless the damage made a copy of it.)
            let copied = damages.iter().any(|d| matches!(d, Damage::Move(..) | Damage::Stale(..)));
            c.ensure(seen.insert(i) || copied, "again", || format!("{what}: record {i} was read again; {log:?}"));
          },
        }
        read += 1;
        reading += 1;
        true
      },
      Err(e) => {
        let (k, e) = ecode(e);
        log.push(format!("read={k}"));
        match k {
          "Unavailable" => {},
          "InvalidArgument" if reading > 0 && !cursor => {},
          _ => c.violation("read-error", &format!("{what}: {e}; {log:?}")),
        }
        false
      },
    };
    if reading > 0 && (!cursor || !done || r.bool()) {
      let k = match &mut reader {
        Reader::Plain(q) => q.finish_read(),
        Reader::Cursor(q) => q.advance_read_pointer(),
      };
      log.push(format!("finish={}", code(&k)));
      c.ensure(k.is_ok(), "finish", || format!("{what}: {k:?}; {log:?}"));
      reading -= 1;
    }
    if done {
      dry = 0;
    } else {
      dry += 1;
    }
    if log.len() > 300 {
      log.drain(.. 200);
    }
  }
  while reading > 0 {
    let k = match &mut reader {
      Reader::Plain(q) => q.finish_read(),
      Reader::Cursor(q) => q.advance_read_pointer(),
    };
    c.ensure(k.is_ok(), "finish", || format!("{what}: {k:?}; {log:?}"));
    reading -= 1;
  }
  // By now it works again.
  if !c.violated() {
    for _ in 0 .. 3 {
      *ids += 1;
      let size = 4 + r.below(u64::from(nv.space() / 6)) as u32;
      let k = p.reserve(size, false).map(|b| b.copy_from_slice(&content(*ids, size as usize)));
      let k = k.and_then(|()| p.commit());
      // A damaged place after the last good one may cost one more.
      let d = match &mut reader {
        Reader::Plain(q) => {
          let d = q.start_read(false).ok().and_then(identify);
          let _ = q.finish_read();
          d
        },
        Reader::Cursor(q) => {
          let d = q.start_read(false).ok().and_then(identify);
          let _ = q.advance_read_pointer();
          d
        },
      };
      log.push(format!("{:?}={}, read {d:?}", *ids, code(&k)));
      c.ensure(d == Some(*ids), "unusable", || format!("{what}: record {} of {size} bytes does not come out, {k:?}; {log:?}", *ids));
    }
  }
  if sound {
    c.count("undamaged");
  }
  read
}

/// A writer that waits for space while a reader comes upon damage: both must get on.
pub fn blocked(c: &Check) {
  let dir = Scratch::new();
  let n = c.n(150, 4_000);
  for case in 0 .. n {
    if c.only.is_some_and(|o| o != 1_000_000 + case) || c.violated() {
      continue;
    }
    let r = &mut Rng::new(c.seed ^ (1_000_000 + case).wrapping_mul(0x9e37_79b9));
    let cursor = r.bool();
    let nv = Nv { size: 40 + 256 + r.below(4) as u32, crc: true, overwrite: false, block_read: r.bool() };
    let path = dir.path().join(format!("w{case}"));
    let mut ids = 0;
    let (written, images) = past(nv, cursor, &path, &mut ids, r);
    let mut file = std::fs::read(&path).unwrap();
    let words = [0, 1, 4, 8, 16, nv.space(), u32::MAX, 24, 56, 300];
    let d: Vec<Damage> = (0 .. 1 + r.below(3)).map(|_| damage(file.len(), images.len(), &words, r)).filter(|d| !matches!(d, Damage::Length(_))).collect();
    let sound = file[.. 40].to_vec();
    for d in &d {
      apply(d, &mut file, &images);
    }
    file[.. 40].copy_from_slice(&sound);
    std::fs::write(&path, &file).unwrap();
    let what = format!("case {}, {nv:?}, cursor {cursor}, damage {d:?}", 1_000_000 + case);
    c.now(|| what.clone());
    let s = stats();
    let ring = nv.open(&path, s.clone()).expect("only the records are damaged");
    let mut p = ring.clone().register_producer().unwrap();
    let total = 60u32;
    let size = 4 + r.below(60) as usize;
    let writer = std::thread::spawn(move || {
      let mut done = vec![];
      for i in 0 .. total {
        match p.reserve(size as u32, true) {
          Ok(b) => {
            b.copy_from_slice(&content(1_000 + i, size));
            p.commit().unwrap();
            done.push(1_000 + i);
          },
          // While what is damaged is given up.
          Err(Error::AbslStatus(bd_buffer::AbslCode::Unavailable | bd_buffer::AbslCode::ResourceExhausted, _)) => std::thread::yield_now(),
          Err(e) => return Err(e.to_string()),
        }
      }
      Ok(done)
    });
    let mut reader = if cursor {
      Reader::Cursor(ring.clone().register_cursor_consumer().unwrap())
    } else {
      Reader::Plain(ring.clone().register_consumer().unwrap())
    };
    let mut read = vec![];
    let t0 = std::time::Instant::now();
    let lag = r.below(3);
    let mut reading = 0u64;
    let mut stuck = false;
    loop {
      let over = writer.is_finished();
      let got = match &mut reader {
        Reader::Plain(q) => q.start_read(false),
        Reader::Cursor(q) => q.start_read(false),
      };
      let dry = got.is_err();
      if let Ok(d) = got {
        match identify(d) {
          Some(i) if i >= 1_000 || written.get(&i) == Some(&d.len()) => read.push(i),
          x => c.violation("wrong-data", &format!("{what}: {x:?} of {} bytes", d.len())),
        }
        reading += 1;
      }
      if reading > 0 && (dry || !cursor || reading > lag) {
        let _ = match &mut reader {
          Reader::Plain(q) => q.finish_read(),
          Reader::Cursor(q) => q.advance_read_pointer(),
        };
        reading -= 1;
      }
      if dry && over && reading == 0 {
        break;
      }
      if t0.elapsed() > Duration::from_secs(20) {
        stuck = true;
        break;
      }
      if dry {
        std::thread::yield_now();
      }
    }
    if stuck {
      c.violation("blocked", &format!("{what}: the writer of records of {size} bytes still waits for space, {read:?} were read, {:?}", snap(&s)));
      ring.shutdown();
    }
    let done = writer.join().unwrap();
    if !stuck {
      let k = snap(&s);
      let mine: Vec<u32> = read.iter().copied().filter(|i| *i >= 1_000).collect();
      match done {
        Ok(done) => {
          // All of them, unless all was lost meanwhile.
          let ok = if k.loss == 0 { mine == done } else { mine.windows(2).all(|w| w[0] < w[1]) };
          c.ensure(ok, "order", || format!("{what}: written {done:?}, read {mine:?}, {k:?}"));
        },
        Err(e) => c.violation("write", &format!("{what}: {e}")),
      }
      c.add("waiting writers: total losses", k.loss);
      c.count("waiting writers");
      c.eval((k.loss + k.corrupted > 0).then(|| vh::hash_of(&what)));
    }
    let _ = std::fs::remove_file(&path);
  }
}

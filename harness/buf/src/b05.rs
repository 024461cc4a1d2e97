//! The buffer with an in-memory front and a durable back: racing producers, a consumer, flushes and a shutdown, then
//! what the file holds.
use crate::conc::{judge, wait, Plan, Reading, Seen, Written};
use crate::ring::*;
use bd_buffer::buffer::{AggregateRingBuffer, OptionalStatGetter, PerRecordCrc32Check, RingBuffer};
use bd_buffer::{AbslCode, AllowOverwrite, Error};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::jitter::Jitter;
use vh::{Check, Rng, Scratch};

#[derive(Clone, Debug)]
struct Cfg {
  producers: usize,
  records: u32,
  max: u32,
  ram: u32,
  disk: u32,
  crc: bool,
  overwrite: bool,
  cursor: bool,
  reading: Reading,
  slow_reader: u64,
  slow_writer: u64,
  pause: u64,
  flusher: bool,
  /// The reader stops after this many records, possibly in the middle of one.
  reads: u64,
  leave_open: bool,
  lag: u64,
}

fn cfg(r: &mut Rng) -> Cfg {
  let ram = *r.pick(&[40u32, 64, 128, 500, 1024, 8192]);
  let disk = ram + *r.pick(&[0, 0, 1, 4, 8, 100, 1000, 20_000]);
  let overwrite = r.chance(3, 5);
  Cfg {
    producers: 1 + r.idx(4),
    records: 30 + r.below(170) as u32,
    max: 1 + ram / *r.pick(&[3, 8, 20]),
    ram,
    disk,
    crc: r.chance(4, 5),
    overwrite,
    cursor: !overwrite && r.bool(),
    reading: *r.pick(&[Reading::Blocking, Reading::Polling, Reading::Async]),
    slow_reader: *r.pick(&[0, 0, 5, 50, 50, 300]),
    slow_writer: *r.pick(&[0, 0, 2, 20]),
    pause: *r.pick(&[0, 0, 10, 100]),
    flusher: r.chance(2, 3),
    reads: if r.bool() { u64::MAX } else { r.below(150) },
    leave_open: r.chance(1, 3),
    lag: r.below(6),
  }
}

#[derive(Default)]
struct Read {
  /// Those that are over and done with.
  done: Vec<u32>,
  /// Those that were handed out only.
  open: Vec<u32>,
  errors: Vec<String>,
}

/// One interface for both kinds of consumer.
enum Reader {
  Plain(Box<dyn bd_buffer::RingBufferConsumer>),
  Cursor(Box<dyn bd_buffer::buffer::RingBufferCursorConsumer>),
}

impl Reader {
  fn start(&mut self, block: bool) -> Result<&[u8], Error> {
    match self {
      Self::Plain(q) => q.start_read(block),
      Self::Cursor(q) => q.start_read(block),
    }
  }
  async fn read(&mut self) -> Result<&[u8], Error> {
    match self {
      Self::Plain(q) => q.read().await,
      Self::Cursor(q) => q.read().await,
    }
  }
  fn finish(&mut self) -> Result<(), Error> {
    match self {
      Self::Plain(q) => q.finish_read(),
      Self::Cursor(q) => q.advance_read_pointer(),
    }
  }
}

fn consume(mut q: Reader, g: &Cfg, stop: &AtomicBool, r: &mut Rng) -> Read {
  let mut out = Read::default();
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  let cursor = g.cursor;
  let mut n = 0;
  while out.errors.len() < 3 && n < g.reads {
    let stopping = stop.load(SeqCst);
    let mut dry = false;
    let look = |d: &[u8], r: &mut Rng| {
      let first = identify(d);
      wait(g.slow_reader, r);
      match (first, identify(d)) {
        (Some(a), Some(b)) if a == b => Ok(a),
        (a, b) => Err(format!("a record of {} bytes reads as {a:?}, then as {b:?}", d.len())),
      }
    };
    // Nothing may ever come while there are some that are not acknowledged.
    let reading = if out.open.is_empty() { g.reading } else { Reading::Polling };
    let got = match reading {
      Reading::Blocking => q.start(true).map(|d| look(d, r)),
      Reading::Polling => q.start(false).map(|d| look(d, r)),
      Reading::Async => rt.block_on(async {
        tokio::select! {
          biased;
          x = q.read() => x.map(|d| look(d, r)),
          () = async { while !stop.load(SeqCst) { tokio::time::sleep(Duration::from_millis(1)).await } } =>
            Err(Error::AbslStatus(AbslCode::Aborted, String::new())),
        }
      }),
    };
    match got {
      Ok(Ok(id)) => {
        n += 1;
        out.open.push(id);
      },
      Ok(Err(e)) => {
        out.errors.push(e);
        break;
      },
      Err(Error::AbslStatus(AbslCode::Unavailable, _)) => {
        if stopping && out.open.is_empty() {
          break;
        }
        dry = true;
        std::thread::yield_now();
      },
      Err(Error::AbslStatus(AbslCode::Aborted, _)) => {
        if !stop.load(SeqCst) {
          out.errors.push("aborted before the shutdown".into());
        }
        break;
      },
      Err(e) => {
        out.errors.push(format!("read: {e}"));
        break;
      },
    }
    let last = n == g.reads && g.leave_open;
    while !out.open.is_empty() && !last && (!cursor || out.open.len() as u64 > g.lag || dry) {
      if let Err(e) = q.finish() {
        out.errors.push(format!("finish: {e}"));
        break;
      }
      let id = out.open.remove(0);
      out.done.push(id);
    }
  }
  out
}

pub fn run(c: &Check) {
  c.rule("cases are rounds of racing producers, a consumer and flushes on one buffer, its shutdown, and the reading of what its file holds; non-trivial: records were delivered and some were overwritten or left for the restart; distinct by what was read");
  let dir = Scratch::new();
  for case in 0 .. c.n(1_200, 20_000) {
    if c.only.is_some_and(|n| n != case) {
      continue;
    }
    if c.elapsed() > Duration::from_secs(c.n(20, 800)) || c.violated() {
      break;
    }
    round(c, case, &dir);
  }
  c.add("injected delays", vh::jitter::hits());
}

pub fn round(c: &Check, case: u64, dir: &Scratch) {
  let r = &mut Rng::new(c.seed ^ case.wrapping_mul(0x9e37_79b9));
  let g = cfg(r);
  let what = format!("case {case}, {g:?}");
  c.now(|| what.clone());
  c.sample(|| what.clone());
  let path = dir.path().join(format!("a{case}"));
  let (v, s) = (stats(), stats());
  let ring = AggregateRingBuffer::new(
    "t",
    g.ram,
    &path,
    g.disk + 40,
    if g.crc { PerRecordCrc32Check::Yes } else { PerRecordCrc32Check::No },
    if g.overwrite { AllowOverwrite::Yes } else { AllowOverwrite::Block },
    v.clone(),
    s.clone(),
  )
  .unwrap();
  let jitter = Jitter::start(r.u64(), Duration::from_micros(30), Duration::from_micros(*r.pick(&[100, 400, 2000])));
  let reader = if g.cursor {
    Reader::Cursor(ring.clone().register_cursor_consumer().unwrap())
  } else {
    Reader::Plain(ring.clone().register_consumer().unwrap())
  };
  let clock = AtomicU64::new(0);
  let committed = AtomicU64::new(0);
  let running = AtomicI64::new(g.producers as i64);
  let stop = AtomicBool::new(false);
  let extra = if g.crc { 8 } else { 4 };
  let arrived = || s.records_written.get_value() + s.records_refused.get_value();
  // What a flush has to see, by the counts.
  let flush = |ring: &Arc<AggregateRingBuffer>| -> Option<String> {
    // While another is writing an earlier record, later ones are not complete.
    let before = if running.load(SeqCst) == 0 { committed.load(SeqCst) } else { v.records_written.get_value() };
    ring.flush();
    // (Those overwritten in the front are counted before those that arrived, as they can only grow.)
    let gone = v.records_overwritten.get_value();
    let there = arrived();
    (there + gone < before && !stop.load(SeqCst)).then(|| format!("flushed: {before} were written before, {there} arrived, {gone} were overwritten"))
  };
  let mut seen = Seen::default();
  let mut read = Read::default();
  let mut flushes = 0;
  std::thread::scope(|scope| {
    let mut rr = r.fork();
    let (g, stop, clock, committed, running, jitter, flush) = (&g, &stop, &clock, &committed, &running, &jitter, &flush);
    let reader = scope.spawn(move || {
      let _e = jitter.enroll();
      consume(reader, g, stop, &mut rr)
    });
    let writers: Vec<_> = (0 .. g.producers)
      .map(|k| {
        let mut r = r.fork();
        let mut p = ring.clone().register_producer().unwrap();
        scope.spawn(move || {
          let _e = jitter.enroll();
          let mut out = Seen::default();
          for n in 0 .. g.records {
            let id = ((k as u32 + 1) << 20) | n;
            let size = match r.below(20) {
              0 => g.ram - 4 + r.below(4) as u32 - r.below(4) as u32,
              1 => 4,
              _ => 4 + r.below(u64::from(g.max)) as u32,
            };
            let t0 = clock.fetch_add(1, SeqCst);
            let got = p.reserve(size, r.bool());
            let t1 = clock.fetch_add(1, SeqCst);
            match got {
              Ok(space) => {
                space.copy_from_slice(&content(id, size as usize));
                wait(g.slow_writer, &mut r);
                if let Err(e) = p.commit() {
                  out.errors.push(format!("commit: {e}"));
                }
                committed.fetch_add(1, SeqCst);
                out.written.push(Written { id, size, t0, t1 });
              },
              Err(e) => {
                let e: Result<(), _> = Err(e);
                match code(&e) {
                  "InvalidArgument" if size + 4 > g.ram => {},
                  "ResourceExhausted" if size + 4 <= g.ram => {},
                  k => out.errors.push(format!("refused with {k}: {size}")),
                }
                out.refused.entry("any").or_default().0 += 1;
              },
            }
            wait(g.pause, &mut r);
          }
          running.fetch_sub(1, SeqCst);
          out
        })
      })
      .collect();
    // Without a reader a full back that does not overwrite keeps a flush waiting, until the shutdown.
    let flusher = g.flusher.then(|| {
      let ring = ring.clone();
      let mut r = r.fork();
      scope.spawn(move || {
        let _e = jitter.enroll();
        let mut errors = vec![];
        let mut n = 0;
        while running.load(SeqCst) > 0 {
          errors.extend(flush(&ring));
          n += 1;
          wait(200, &mut r);
        }
        (errors, n)
      })
    });
    for w in writers {
      let p = w.join().unwrap();
      seen.written.extend(p.written);
      seen.errors.extend(p.errors);
    }
    let prompt = g.overwrite || g.reads == u64::MAX;
    if prompt && r.bool() {
      // The last flush has nothing to race with but the transfer.
      if let Some(e) = flush(&ring) {
        seen.errors.push(e);
      }
      flushes += 1;
    }
    wait(300, r);
    stop.store(true, SeqCst);
    ring.shutdown();
    if g.overwrite {
      let (all, there, gone) = (committed.load(SeqCst), arrived(), v.records_overwritten.get_value());
      if there + gone != all {
        seen.errors.push(format!("shut down: {all} were accepted, {there} arrived, {gone} were overwritten"));
      }
    }
    if let Some(f) = flusher {
      let (errors, n) = f.join().unwrap();
      seen.errors.extend(errors);
      flushes += n;
    }
    read = reader.join().unwrap();
  });
  drop(jitter);
  let t = Instant::now();
  drop(ring);
  let _ = t;
  let (kv, ks) = (snap(&v), snap(&s));
  // What the file holds.
  let nv = Nv { size: g.disk + 40, crc: g.crc, overwrite: g.overwrite, block_read: true };
  let s2 = stats();
  let mut later = vec![];
  match nv.open(&path, s2.clone()) {
    Ok(ring) => {
      let mut q = ring.clone().register_consumer().unwrap();
      loop {
        match q.start_read(false) {
          Ok(d) => {
            match identify(d) {
              Some(id) => later.push(id),
              None => seen.errors.push(format!("a record of {} bytes in the file is none", d.len())),
            }
            let _ = q.finish_read();
          },
          Err(Error::AbslStatus(AbslCode::Unavailable, _)) => break,
          Err(e) => {
            seen.errors.push(format!("reopened: {e}"));
            break;
          },
        }
      }
    },
    Err(e) => seen.errors.push(format!("reopening: {e}")),
  }
  let k2 = snap(&s2);
  let _ = std::fs::remove_file(&path);
  seen.errors.append(&mut read.errors);
  // A plain read that was not finished may have cost the record.
  let torn: Vec<u32> = if g.cursor { vec![] } else { read.open.clone() };
  seen.read = read.done.clone();
  seen.read.extend(&later);
  let plan = Plan {
    producers: g.producers,
    records: g.records,
    max: g.max,
    // (The counts tell what may be missing.)
    space: 0,
    extra: 4,
    reading: g.reading,
    slow_reader: g.slow_reader,
    slow_writer: g.slow_writer,
    locker: false,
    overwrites: true,
  };
  let missing = judge(c, &what, &plan, &seen);
  let n = seen.written.len() as u64;
  let unfit = seen.written.iter().filter(|w| w.size + extra > g.disk).count() as u64;
  let torn_lost = missing.iter().filter(|m| torn.contains(&m.id)).count() as u64;
  // Each is somewhere.
  let left = if g.overwrite { 0 } else { n - kv.overwritten - kv.read };
  c.ensure(kv.written == n, "counts", || format!("{what}: {n} were accepted, counted {kv:?}"));
  c.ensure(!g.overwrite || kv.read + kv.overwritten == n, "lost", || format!("{what}: {n} were accepted, {kv:?} in front, {ks:?} behind"));
  c.ensure(ks.written + ks.refused <= kv.read + 1 && kv.read <= ks.written + ks.refused, "transfer", || format!("{what}: {kv:?} in front, {ks:?} behind"));
  c.ensure(ks.refused <= unfit + u64::from(!g.overwrite), "refused", || format!("{what}: {ks:?} behind, {unfit} could not fit"));
  let expected = ks.written - ks.overwritten - ks.read;
  c.ensure(ks.read == read.done.len() as u64, "read", || format!("{what}: {} were read, {ks:?} behind", read.done.len()));
  c.ensure(later.len() as u64 + k2.corrupted == expected, "durable", || {
    format!("{what}: {} records in the file, {expected} expected ({torn_lost} of them torn); {ks:?}, reopened {k2:?}", later.len())
  });
  c.ensure(k2.corrupted <= torn_lost && k2.loss == 0, "damaged", || format!("{what}: reopened {k2:?}"));
  c.ensure(missing.len() as u64 <= kv.overwritten + ks.overwritten + ks.refused + torn_lost + left, "lost", || {
    format!("{what}: {} are missing; {kv:?} in front, {ks:?} behind, {left} left in front", missing.len())
  });
  c.add("written", n);
  c.add("overwritten in front", kv.overwritten);
  c.add("overwritten behind", ks.overwritten);
  c.add("read", read.done.len() as u64);
  c.add("read after the restart", later.len() as u64);
  c.add("left in front when shut down", left);
  c.add("too large for the back", ks.refused);
  c.add("flushes", flushes);
  c.saw("configurations", &(g.producers, g.ram, g.disk, g.crc, g.overwrite, g.cursor, g.reading));
  c.eval((!missing.is_empty() && seen.read.len() > 5).then(|| vh::hash_of(&seen.read)));
}

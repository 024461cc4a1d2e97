//! Producers, a consumer and a locker race on one buffer; what each saw is checked afterwards.
use crate::ring::*;
use bd_buffer::buffer::{RingBuffer, RingBufferConsumer};
use bd_buffer::AbslCode;
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use vh::jitter::Jitter;
use vh::{Check, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Reading {
  Blocking,
  Polling,
  Async,
}

#[derive(Clone, Debug)]
pub struct Plan {
  pub producers: usize,
  pub records: u32,
  pub max: u32,
  pub space: u32,
  pub extra: u32,
  pub reading: Reading,
  /// The most the reader waits with a record in hand, in µs.
  pub slow_reader: u64,
  pub slow_writer: u64,
  pub locker: bool,
  /// Whether a full buffer gives up its oldest records.
  pub overwrites: bool,
}

#[derive(Clone, Debug)]
pub struct Written {
  pub id: u32,
  pub size: u32,
  pub t0: u64,
  pub t1: u64,
}

#[derive(Default, Debug)]
pub struct Seen {
  pub written: Vec<Written>,
  /// Refusals by error, with their bytes.
  pub refused: HashMap<&'static str, (u64, u64)>,
  pub read: Vec<u32>,
  pub errors: Vec<String>,
  pub locks: u64,
}

pub fn wait(us: u64, r: &mut Rng) {
  if us == 0 {
    return;
  }
  let d = Duration::from_micros(r.below(us + 1));
  if d > Duration::from_micros(200) {
    std::thread::sleep(d);
  } else {
    let t = Instant::now();
    while t.elapsed() < d {
      std::hint::spin_loop();
    }
  }
}

/// What the consumer does with a record: checks it twice, as it must not change while it is read.
fn look(data: &[u8], slow: u64, r: &mut Rng) -> Result<u32, String> {
  let first = identify(data);
  wait(slow, r);
  match (first, identify(data)) {
    (Some(a), Some(b)) if a == b => Ok(a),
    (a, b) => Err(format!("a record of {} bytes reads as {a:?}, then as {b:?}", data.len())),
  }
}

pub fn consume(
  mut c: Box<dyn RingBufferConsumer>,
  reading: Reading,
  slow: u64,
  stop: &AtomicBool,
  r: &mut Rng,
) -> (Vec<u32>, Vec<String>) {
  let mut read = vec![];
  let mut errors = vec![];
  let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
  macro_rules! take {
    ($data:expr) => {
      match look($data, slow, r) {
        Ok(id) => read.push(id),
        Err(e) => errors.push(e),
      }
    };
  }
  macro_rules! finish {
    () => {
      if let Err(e) = c.finish_read() {
        errors.push(format!("finish: {e}"));
      }
    };
  }
  loop {
    if errors.len() > 3 {
      break;
    }
    match reading {
      Reading::Blocking => match c.start_read(true) {
        Ok(d) => {
          take!(d);
          finish!();
        },
        Err(bd_buffer::Error::AbslStatus(AbslCode::Aborted, _)) => {
          if !stop.load(SeqCst) {
            errors.push("aborted before the shutdown".into());
          }
          break;
        },
        Err(e) => {
          errors.push(format!("blocking read: {e}"));
          break;
        },
      },
      Reading::Polling => {
        let done = stop.load(SeqCst);
        match c.start_read(false) {
          Ok(d) => {
            take!(d);
            finish!();
          },
          Err(bd_buffer::Error::AbslStatus(AbslCode::Unavailable, _)) => {
            if done {
              break;
            }
            std::thread::yield_now();
          },
          Err(e) => {
            errors.push(format!("read: {e}"));
            break;
          },
        }
      },
      Reading::Async => {
        let got = rt.block_on(async {
          tokio::select! {
            biased;
            x = c.read() => Some(x.map(|d| look(d, slow, r))),
            () = async { while !stop.load(SeqCst) { tokio::time::sleep(Duration::from_millis(1)).await } } => None,
          }
        });
        match got {
          Some(Ok(Ok(id))) => {
            read.push(id);
            finish!();
          },
          Some(Ok(Err(e))) => {
            errors.push(e);
            finish!();
          },
          Some(Err(e)) => {
            errors.push(format!("async read: {e}"));
            break;
          },
          None => break,
        }
      },
    }
  }
  // What is left after the shutdown.
  while errors.is_empty() {
    match c.start_read(false) {
      Ok(d) => {
        take!(d);
        finish!();
      },
      Err(bd_buffer::Error::AbslStatus(AbslCode::Unavailable, _)) => break,
      Err(e) => errors.push(format!("read: {e}")),
    }
  }
  (read, errors)
}

/// Runs a round. `lock_stops`: whether a lock keeps `written` still.
pub fn round(
  plan: &Plan,
  ring: &Arc<dyn RingBuffer>,
  written_stat: &(dyn Fn() -> u64 + Sync),
  shutdown: &(dyn Fn() + Sync),
  between: &(dyn Fn(&mut Rng) + Sync),
  jitter: &Jitter,
  r: &mut Rng,
) -> Seen {
  let clock = AtomicU64::new(0);
  let outstanding = AtomicI64::new(0);
  let running = AtomicI64::new(plan.producers as i64);
  let stop = AtomicBool::new(false);
  let mut seen = Seen::default();
  let consumer = ring.clone().register_consumer().unwrap();
  let producers: Vec<_> = (0 .. plan.producers).map(|_| ring.clone().register_producer().unwrap()).collect();
  std::thread::scope(|s| {
    let mut rc = r.fork();
    let stop_ref = &stop;
    let reader = std::thread::Builder::new()
      .name("reader".into())
      .spawn_scoped(s, move || {
        let _e = jitter.enroll();
        consume(consumer, plan.reading, plan.slow_reader, stop_ref, &mut rc)
      })
      .unwrap();
    let writers: Vec<_> = producers
      .into_iter()
      .enumerate()
      .map(|(k, mut p)| {
        let mut r = r.fork();
        let (clock, outstanding, running) = (&clock, &outstanding, &running);
        s.spawn(move || {
          let _e = jitter.enroll();
          let mut out = Seen::default();
          for n in 0 .. plan.records {
            let id = ((k as u32 + 1) << 20) | n;
            let size = match r.below(20) {
              0 => plan.space - plan.extra + r.below(4) as u32,
              1 => 4,
              _ => 4 + r.below(u64::from(plan.max)) as u32,
            };
            let t0 = clock.fetch_add(1, SeqCst);
            let got = p.reserve(size, r.bool());
            let t1 = clock.fetch_add(1, SeqCst);
            let k = code(&got);
            match got {
              Ok(space) => {
                outstanding.fetch_add(1, SeqCst);
                let data = content(id, size as usize);
                if space.len() == data.len() {
                  let mid = r.idx(data.len());
                  space[mid ..].copy_from_slice(&data[mid ..]);
                  wait(plan.slow_writer, &mut r);
                  space[.. mid].copy_from_slice(&data[.. mid]);
                  if *space != data[..] {
                    out.errors.push(format!("the space of {id:x} was written by another"));
                  }
                } else {
                  out.errors.push(format!("space of {} for {size}", space.len()));
                }
                outstanding.fetch_sub(1, SeqCst);
                if let Err(e) = p.commit() {
                  out.errors.push(format!("commit: {e}"));
                }
                out.written.push(Written { id, size, t0, t1 });
              },
              Err(_) => {
                let e = out.refused.entry(k).or_default();
                e.0 += 1;
                e.1 += u64::from(size);
                let fits = size + plan.extra <= plan.space;
                match k {
                  "InvalidArgument" if !fits => {},
                  "ResourceExhausted" if fits => std::thread::yield_now(),
                  "Unavailable" if fits && !plan.overwrites => std::thread::yield_now(),
                  "FailedPrecondition" if plan.locker => std::thread::yield_now(),
                  k => out.errors.push(format!("refused with {k}: {size} of {}", plan.space)),
                }
              },
            }
            between(&mut r);
          }
          running.fetch_sub(1, SeqCst);
          out
        })
      })
      .collect();
    let locker = plan.locker.then(|| {
      let mut r = r.fork();
      let (outstanding, running) = (&outstanding, &running);
      let ring = ring.clone();
      s.spawn(move || {
        let _e = jitter.enroll();
        let mut out = Seen::default();
        while running.load(SeqCst) > 0 {
          let l = ring.clone().lock();
          l.await_reservations_drained();
          let a = outstanding.load(SeqCst);
          let before = written_stat();
          wait(30, &mut r);
          let after = written_stat();
          if a != 0 || outstanding.load(SeqCst) != 0 || before != after {
            out.errors.push(format!("locked and drained: {a} reservations, {before} to {after} written"));
          }
          drop(l);
          out.locks += 1;
          wait(300, &mut r);
        }
        out
      })
    });
    let mut parts: Vec<Seen> = writers.into_iter().map(|w| w.join().unwrap()).collect();
    parts.extend(locker.map(|l| l.join().unwrap()));
    wait(500, r);
    stop.store(true, SeqCst);
    shutdown();
    let (read, errors) = reader.join().unwrap();
    seen.read = read;
    seen.errors = errors;
    for p in parts {
      seen.written.extend(p.written);
      seen.errors.extend(p.errors);
      seen.locks += p.locks;
      for (k, v) in p.refused {
        let e = seen.refused.entry(k).or_default();
        e.0 += v.0;
        e.1 += v.1;
      }
    }
  });
  seen
}

/// Order, exactly-once, and what is missing. Returns the written records that were not read.
pub fn judge(c: &Check, what: &str, plan: &Plan, seen: &Seen) -> Vec<Written> {
  for e in &seen.errors {
    c.violation("misbehaviour", &format!("{what}, {plan:?}: {e}"));
  }
  let mut by_id: HashMap<u32, &Written> = seen.written.iter().map(|w| (w.id, w)).collect();
  let mut order = vec![];
  for id in &seen.read {
    match by_id.remove(id) {
      Some(w) => order.push(w),
      None => c.violation("unexpected", &format!("{what}, {plan:?}: record {id:x} was read twice or never written")),
    }
  }
  // Of two records, the one whose space was reserved before that of the other was asked for is read first.
  let mut least: Option<&Written> = None;
  for w in order.iter().rev() {
    if let Some(l) = least {
      if l.t1 < w.t0 {
        c.violation("order", &format!("{what}, {plan:?}: {:x} (reserved at {}-{}) was read before {:x} ({}-{})", w.id, w.t0, w.t1, l.id, l.t0, l.t1));
        break;
      }
    }
    if least.map_or(true, |l| w.t1 < l.t1) {
      least = Some(w);
    }
  }
  let mut missing: Vec<Written> = by_id.into_values().cloned().collect();
  missing.sort_by_key(|w| w.t0);
  // A missing record made room for later ones.
  let space = |w: &Written| u64::from(w.size + plan.extra);
  let widest = seen.written.iter().map(space).max().unwrap_or(0);
  for m in missing.iter().rev().take(50) {
    let later: u64 = seen.written.iter().filter(|w| w.t1 > m.t0).map(space).sum();
    if !plan.overwrites || later + 2 * widest < u64::from(plan.space) {
      c.violation("lost", &format!("{what}, {plan:?}: record {:x} of {} bytes is missing, {later} bytes were written since", m.id, m.size));
      break;
    }
  }
  missing
}

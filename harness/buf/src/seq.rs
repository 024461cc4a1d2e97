//! One thread drives a ring buffer, and a list of records is the oracle of every call.
//!
//! What is known of the inside is only where the returned slices lie: a record may be overwritten
//! only by a reservation that covers its place, or that goes past it to start at the beginning.
use crate::ring::*;
use bd_buffer::buffer::{
  LockHandle,
  RingBuffer,
  RingBufferConsumer,
  RingBufferCursorConsumer,
  RingBufferProducer,
  RingBufferStats,
  VolatileRingBuffer,
};
use futures::FutureExt;
use std::collections::VecDeque;
use std::path::PathBuf;
use std::sync::Arc;
use vh::{Check, Rng};

#[derive(Clone, Debug)]
pub enum Kind {
  Ram(u32),
  File(Nv, bool, PathBuf),
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum State {
  /// Reserved by this producer.
  Open(usize),
  Committed,
  /// Reserved and given up by a restart.
  Hole,
}

#[derive(Clone, Debug)]
struct Rec {
  id: u32,
  size: usize,
  at: usize,
  state: State,
  /// Its reading was started without a cursor: after a restart it need not be there.
  begun: bool,
  /// It is to be passed over.
  lost: bool,
  /// Handed to the reader.
  out: bool,
  /// The cursor passed over it; it leaves with the records before it, or is passed over again after a restart.
  passed: bool,
}

enum Reader {
  None,
  Plain(Box<dyn RingBufferConsumer>),
  Cursor(Box<dyn RingBufferCursorConsumer>),
}

struct Producer {
  p: Box<dyn RingBufferProducer>,
  /// The record that is reserved, with where its data goes.
  open: Option<(u32, *mut u8, usize)>,
}

pub struct Sim<'a> {
  c: &'a Check,
  kind: Kind,
  stats: Arc<RingBufferStats>,
  ring: Option<Arc<dyn RingBuffer>>,
  producers: Vec<Producer>,
  reader: Reader,
  locks: Vec<Box<dyn LockHandle>>,
  queue: VecDeque<Rec>,
  /// Records handed to the reader and not finished: always the first ones of the queue.
  reading: usize,
  next_id: u32,
  /// Where the memory of the records begins.
  base: usize,
  /// Where the last reservation ended.
  prev_end: usize,
  max_size: usize,
  pub history: Vec<String>,
  what: String,
  /// All records take multiples of this, so that new ones come to lie where old ones were.
  unit: Option<u32>,
  pub overwritten: u64,
  pub wraps: u64,
  pub delivered: u64,
  pub reopened: u64,
  pub holes: u64,
}

macro_rules! bad {
  ($s:expr, $sig:expr, $($a:tt)*) => {{
    let n = $s.history.len().saturating_sub(60);
    let d = format!("{}: {}; history (last 60 of {}): {:?}", $s.what, format!($($a)*), $s.history.len(), &$s.history[n..]);
    $s.c.violation($sig, &d);
    return Err(());
  }};
}

type R = Result<(), ()>;

impl<'a> Sim<'a> {
  pub fn new(c: &'a Check, kind: Kind, producers: usize, what: String) -> Self {
    let mut s = Self {
      c,
      kind,
      stats: stats(),
      ring: None,
      producers: vec![],
      reader: Reader::None,
      locks: vec![],
      queue: VecDeque::new(),
      reading: 0,
      next_id: 1,
      base: 0,
      prev_end: 0,
      max_size: 0,
      unit: None,
      history: vec![],
      what,
      overwritten: 0,
      wraps: 0,
      delivered: 0,
      reopened: 0,
      holes: 0,
    };
    let _ = s.open(producers);
    s
  }

  fn len(&self) -> usize {
    match &self.kind {
      Kind::Ram(n) => *n as usize,
      Kind::File(n, ..) => n.space() as usize,
    }
  }
  fn extra(&self) -> usize {
    match &self.kind {
      Kind::Ram(_) => 4,
      Kind::File(n, ..) => n.extra() as usize,
    }
  }
  fn crc(&self) -> bool {
    matches!(&self.kind, Kind::File(n, ..) if n.crc)
  }
  fn overwrites(&self) -> bool {
    match &self.kind {
      Kind::Ram(_) => true,
      Kind::File(n, ..) => n.overwrite,
    }
  }

  fn open(&mut self, producers: usize) -> R {
    let ring: Arc<dyn RingBuffer> = match self.kind.clone() {
      Kind::Ram(n) => VolatileRingBuffer::new("t".to_string(), n, self.stats.clone()),
      Kind::File(n, _, path) => match n.open(&path, self.stats.clone()) {
        Ok(r) => r,
        Err(e) => bad!(self, "open", "opening the file: {e}"),
      },
    };
    for _ in 0 .. producers {
      match ring.clone().register_producer() {
        Ok(p) => self.producers.push(Producer { p, open: None }),
        Err(e) => bad!(self, "register", "producer: {e}"),
      }
    }
    let cursor = matches!(&self.kind, Kind::File(_, true, _));
    self.reader = if cursor {
      match ring.clone().register_cursor_consumer() {
        Ok(r) => Reader::Cursor(r),
        Err(e) => bad!(self, "register", "cursor consumer: {e}"),
      }
    } else {
      match ring.clone().register_consumer() {
        Ok(r) => Reader::Plain(r),
        Err(e) => bad!(self, "register", "consumer: {e}"),
      }
    };
    // There is one reader at most.
    if ring.clone().register_consumer().is_ok() {
      bad!(self, "second-consumer", "a second consumer was registered");
    }
    self.ring = Some(ring);
    self.base = match &self.kind {
      Kind::Ram(_) => 0,
      Kind::File(_, _, path) => mapped(path) + 40,
    };
    Ok(())
  }

  fn visible(&self) -> usize {
    // What was given up is seen only when something was committed after it.
    let n = self.queue.iter().take_while(|r| !matches!(r.state, State::Open(_))).count();
    self.queue.iter().take(n).rposition(|r| r.state == State::Committed).map_or(0, |i| i + 1)
  }
  /// The first record the reader has not come to.
  fn next_unread(&self) -> usize {
    self.queue.iter().take_while(|r| r.out || r.passed).count()
  }
  fn drop_passed(&mut self) {
    while self.queue.front().is_some_and(|r| r.passed) {
      self.queue.pop_front();
    }
  }
  fn stored(&self) -> usize {
    self.queue.iter().map(|r| r.size + self.extra()).sum()
  }

  pub fn reserve(&mut self, p: usize, size: u32) -> R {
    let before = snap(&self.stats);
    let had = self.producers[p].open.is_some();
    let locked = !self.locks.is_empty();
    let fits = size > 0 && size as usize + self.extra() <= self.len();
    let result = self.producers[p].p.reserve(size, false);
    let k = code(&result);
    let slice = result.ok().map(|s| (s.as_mut_ptr(), s.len()));
    let after = snap(&self.stats);
    self.history.push(format!("{p}.reserve({size})={k}"));
    self.c.count(&format!("reserve: {k}"));
    if had {
      if k != "InvalidArgument" || before != after {
        bad!(self, "re-reserve", "reserve while one is open: {k}, {before:?} -> {after:?}");
      }
      return Ok(());
    }
    let want_refused = (before.refused + 1, before.b_refused + u64::from(size));
    let Some((ptr, len)) = slice else {
      // Refused: nothing changes but the count of it.
      let counted = (after.refused, after.b_refused);
      let mut rest = after;
      rest.refused = before.refused;
      rest.b_refused = before.b_refused;
      if rest != before {
        bad!(self, "refusal-changes", "refused with {k}: {before:?} -> {after:?}");
      }
      match k {
        "FailedPrecondition" if locked => {
          if counted != want_refused {
            bad!(self, "refusal-count", "{before:?} -> {after:?}");
          }
        },
        "InvalidArgument" if !fits && !locked => {
          // Bytes of such a size are not counted.
          if counted != (before.refused + 1, before.b_refused) {
            bad!(self, "refusal-count", "{before:?} -> {after:?}");
          }
        },
        "ResourceExhausted" if fits && !locked => {
          let others = self.queue.iter().any(|r| matches!(r.state, State::Open(_)));
          if self.reading == 0 && !others {
            bad!(self, "refused-without-cause", "nothing is being read or written");
          }
          if self.has_room(size as usize) {
            bad!(self, "refused-without-cause", "there was room: {} of {} stored", self.stored(), self.len());
          }
          if counted != want_refused {
            bad!(self, "refusal-count", "{before:?} -> {after:?}");
          }
        },
        "Unavailable" if fits && !locked && !self.overwrites() => {
          if self.queue.is_empty() || self.has_room(size as usize) {
            bad!(self, "refused-without-cause", "there was room: {} of {} stored", self.stored(), self.len());
          }
        },
        _ => bad!(self, "refusal", "size {size}, fits {fits}, locked {locked}: {k}"),
      }
      return Ok(());
    };
    if !fits || locked {
      bad!(self, "accepted", "size {size}, fits {fits}, locked {locked}: accepted");
    }
    if len != size as usize {
      bad!(self, "slice", "a slice of {len} for {size}");
    }
    if self.base == 0 {
      self.base = ptr as usize - self.extra();
    }
    let Some(at) = (ptr as usize).checked_sub(self.base + self.extra()) else {
      bad!(self, "outside", "a slice before the buffer");
    };
    let end = at + self.extra() + len;
    let wrapped = at != self.prev_end;
    if wrapped {
      self.wraps += 1;
    }
    // What was overwritten: the oldest ones.
    let n = after.overwritten - before.overwritten;
    let mut bytes = 0;
    for _ in 0 .. n {
      if self.visible() == 0 || self.reading > 0 {
        bad!(self, "overwritten", "{n} overwritten with {} visible and {} being read", self.visible(), self.reading);
      }
      let r = self.queue.pop_front().unwrap();
      bytes += r.size as u64;
      self.overwritten += 1;
      let x = self.extra();
      let covered = at < r.at + r.size + x && r.at < end;
      let skipped = wrapped && r.at >= self.prev_end;
      if !self.overwrites() || !(covered || skipped) {
        bad!(self, "overwritten-without-cause", "record {} of {} bytes at {} by one of {len} at {}, the previous one having ended at {}", r.id, r.size, r.at, at, self.prev_end);
      }
    }
    let mut want = before;
    want.overwritten += n;
    want.b_overwritten += bytes;
    if want != after {
      bad!(self, "reserve-counts", "{before:?} -> {after:?}, {bytes} bytes overwritten");
    }
    // The space is nobody else's, and within the buffer.
    let linked = self.visible();
    for (i, r) in self.queue.iter().enumerate() {
      if at < r.at + r.size + self.extra() && r.at < end && (i < linked || r.state != State::Hole) {
        bad!(self, "overlap", "the space of {len} at {at} is that of record {r:?}");
      }
    }
    if end > self.len() {
      bad!(self, "outside", "a slice up to {end} of {}", self.len());
    }
    self.prev_end = end;
    self.max_size = self.max_size.max(len + self.extra());
    let id = self.next_id;
    self.next_id += 1;
    self.queue.push_back(Rec { id, size: len, at, state: State::Open(p), begun: false, lost: false, out: false, passed: false });
    self.producers[p].open = Some((id, ptr, len));
    Ok(())
  }

  /// Whether there is room for `size` whatever gaps the end of the buffer has.
  fn has_room(&self, size: usize) -> bool {
    self.stored() + 2 * (size + self.extra()) + self.max_size <= self.len()
  }

  fn fill(&mut self, p: usize) {
    if let Some((id, ptr, len)) = self.producers[p].open {
      // In two parts, so that anything between them would show.
      let data = content(id, len);
      unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), ptr, len) };
    }
  }

  pub fn commit(&mut self, p: usize) -> R {
    let before = snap(&self.stats);
    self.fill(p);
    let was = self.visible();
    let result = self.producers[p].p.commit();
    let k = code(&result);
    let after = snap(&self.stats);
    self.history.push(format!("{p}.commit={k}"));
    let Some((id, ..)) = self.producers[p].open.take() else {
      if k != "InvalidArgument" || before != after {
        bad!(self, "commit-unreserved", "{k}, {before:?} -> {after:?}");
      }
      return Ok(());
    };
    if k != "ok" {
      bad!(self, "commit", "{k}");
    }
    // A given-up reservation stays in the way only if something unread is before it.
    // (For a cursor: unread by it.)
    let cursor = matches!(self.reader, Reader::Cursor(_));
    if !self.queue.iter().any(|r| r.state == State::Committed) {
      self.queue.retain(|r| r.state != State::Hole);
    } else if cursor && !self.queue.iter().any(|r| r.state == State::Committed && !r.out) {
      for r in self.queue.iter_mut().filter(|r| r.state == State::Hole) {
        r.passed = true;
      }
    }
    let r = self.queue.iter_mut().find(|r| r.id == id).unwrap();
    r.state = State::Committed;
    let now = self.visible();
    let fresh: Vec<u64> = self.queue.iter().skip(was.min(self.queue.len())).take(now - was.min(now)).map(|r| r.size as u64).collect();
    let mut want = before;
    if matches!(self.kind, Kind::File(..)) {
      want.written += 1;
      want.b_written += r_size(&self.queue, id);
    } else {
      want.written += fresh.len() as u64;
      want.b_written += fresh.iter().sum::<u64>();
    }
    want.t_written = want.b_written + want.written * self.extra() as u64;
    if want != after {
      bad!(self, "commit-counts", "{before:?} -> {after:?}, made visible {fresh:?}");
    }
    Ok(())
  }

  pub fn start_read(&mut self, via_async: bool) -> R {
    let before = snap(&self.stats);
    let (k, data): (&'static str, Option<Vec<u8>>) = {
      macro_rules! run {
        ($r:expr) => {
          if via_async {
            match $r.read().now_or_never() {
              Some(x) => (code(&x), x.ok().map(<[u8]>::to_vec)),
              None => ("Unavailable", None),
            }
          } else {
            let x = $r.start_read(false);
            (code(&x), x.ok().map(<[u8]>::to_vec))
          }
        };
      }
      match &mut self.reader {
        Reader::Plain(r) => run!(r),
        Reader::Cursor(r) => run!(r),
        Reader::None => return Ok(()),
      }
    };
    let after = snap(&self.stats);
    self.history.push(format!("read{}={k}", if via_async { " (async)" } else { "" }));
    let cursor = matches!(self.reader, Reader::Cursor(_));
    if self.reading > 0 && !cursor {
      if k != "InvalidArgument" || before != after {
        bad!(self, "read-twice", "a read with one being done: {k}, {before:?} -> {after:?}");
      }
      return Ok(());
    }
    let mut want = before;
    // Given-up reservations are passed over.
    loop {
      let i = self.next_unread();
      if i >= self.visible() || !(self.queue[i].state == State::Hole || self.queue[i].lost) {
        break;
      }
      want.corrupted += 1;
      if !cursor {
        let r = &self.queue[i];
        want.read += 1;
        want.b_read += r.size as u64;
        want.t_read += (r.size + self.extra()) as u64;
      }
      self.queue[i].passed = true;
      self.drop_passed();
    }
    let (visible, next) = (self.visible(), self.next_unread());
    if want != after {
      bad!(self, "read-counts", "{before:?} -> {after:?}");
    }
    let Some(data) = data else {
      if k != "Unavailable" || next < visible {
        bad!(self, "not-delivered", "{k}, with {visible} readable, {} being read", self.reading);
      }
      return Ok(());
    };
    if next >= visible {
      bad!(self, "invented", "{} bytes were read with nothing readable: record {:?}", data.len(), identify(&data));
    }
    let r = &mut self.queue[next];
    r.out = true;
    r.begun |= !cursor;
    let (id, size) = (r.id, r.size);
    if data != content(id, size) {
      bad!(self, "content", "record {id} of {size} bytes was read as {} bytes, record {:?}", data.len(), identify(&data));
    }
    self.reading += 1;
    self.delivered += 1;
    Ok(())
  }

  pub fn finish_read(&mut self) -> R {
    let before = snap(&self.stats);
    let (k, want_k) = match &mut self.reader {
      Reader::Plain(r) => (code(&r.finish_read()), "InvalidArgument"),
      Reader::Cursor(r) => (code(&r.advance_read_pointer()), "FailedPrecondition"),
      Reader::None => return Ok(()),
    };
    let after = snap(&self.stats);
    self.history.push(format!("finish={k}"));
    if self.reading == 0 {
      if k != want_k || before != after {
        bad!(self, "finish-unstarted", "{k}, {before:?} -> {after:?}");
      }
      return Ok(());
    }
    if k != "ok" {
      bad!(self, "finish", "{k}");
    }
    let r = self.queue.pop_front().unwrap();
    self.drop_passed();
    self.reading -= 1;
    let mut want = before;
    want.read += 1;
    want.b_read += r.size as u64;
    want.t_read += (r.size + self.extra()) as u64;
    if want != after {
      bad!(self, "finish-counts", "record of {} bytes: {before:?} -> {after:?}", r.size);
    }
    Ok(())
  }

  pub fn lock(&mut self) {
    self.history.push("lock".into());
    let l = self.ring.clone().unwrap().lock();
    if !self.queue.iter().any(|r| matches!(r.state, State::Open(_))) {
      // Nothing is reserved: returns at once.
      l.await_reservations_drained();
    }
    self.locks.push(l);
  }
  pub fn unlock(&mut self, i: usize) {
    self.history.push("unlock".into());
    let i = i % self.locks.len().max(1);
    if i < self.locks.len() {
      self.locks.swap_remove(i);
    }
  }
  pub fn lock_count(&self) -> usize {
    self.locks.len()
  }
  pub fn reading(&self) -> usize {
    self.reading
  }
  pub fn unread(&self) -> usize {
    self.queue.len()
  }
  pub fn has_open(&self, p: usize) -> bool {
    self.producers[p].open.is_some()
  }

  /// Closes the file and opens it again. `give_up`: with a reservation open.
  pub fn reopen(&mut self) -> R {
    self.history.push("reopen".into());
    self.reopened += 1;
    let n = self.producers.len();
    let before = snap(&self.stats);
    self.producers.clear();
    self.reader = Reader::None;
    self.locks.clear();
    let ring = self.ring.take().unwrap();
    if Arc::strong_count(&ring) != 1 {
      bad!(self, "kept", "the buffer is kept by something");
    }
    drop(ring);
    self.reading = 0;
    for r in &mut self.queue {
      r.out = false;
      r.passed = false;
      if matches!(r.state, State::Open(_)) {
        r.state = State::Hole;
        self.holes += 1;
      }
    }
    if self.queue.front().is_some_and(|r| r.begun) && self.crc() {
      // Its reading had begun: it is not read again, and is passed over like a hole.
      self.queue.front_mut().unwrap().lost = true;
    }
    // A hole with nothing after it is not seen, unless something is committed after it.
    self.open(n)?;
    if snap(&self.stats) != before {
      bad!(self, "reopen-counts", "{before:?} -> {:?}", snap(&self.stats));
    }
    Ok(())
  }

  /// Reads all that is there.
  pub fn drain(&mut self) -> R {
    for p in 0 .. self.producers.len() {
      if self.has_open(p) {
        self.commit(p)?;
      }
    }
    while self.reading > 0 {
      self.finish_read()?;
    }
    let mut left = self.visible() + 2;
    while self.visible() > 0 && left > 0 {
      left -= 1;
      self.start_read(false)?;
      if self.reading > 0 {
        self.finish_read()?;
      }
    }
    self.start_read(false)?;
    if self.reading > 0 || self.visible() > 0 {
      bad!(self, "drain", "{} left", self.visible());
    }
    // What went in came out, was overwritten, or was given up.
    let s = snap(&self.stats);
    if s.written + self.holes < s.read + s.overwritten || s.written > s.read + s.overwritten + self.holes {
      bad!(self, "conservation", "{s:?}");
    }
    Ok(())
  }

  pub fn size_for(&self, r: &mut Rng) -> u32 {
    let len = self.len() as u64;
    let x = self.extra() as u64;
    if let Some(u) = self.unit {
      return *r.pick(&[u, u, u, 2 * u, 3 * u]) - self.extra() as u32;
    }
    (match r.below(16) {
      0 => r.below(len + 10),
      1 => len - x.min(len) + r.below(3),
      2 => 0,
      3 => u64::from(u32::MAX) - r.below(8),
      4 => (len / 2).saturating_sub(x) + r.below(3),
      5 => 1 + r.below(3),
      6 => (len / 4).saturating_sub(x),
      _ => 4 + r.below(1 + len / 6),
    }) as u32
  }
}

fn r_size(q: &VecDeque<Rec>, id: u32) -> u64 {
  q.iter().find(|r| r.id == id).map_or(0, |r| r.size as u64)
}

/// A random history. Returns a key for the evidence when something of weight happened in it.
pub fn history(c: &Check, kind: Kind, producers: usize, steps: u64, r: &mut Rng, what: String) -> Option<u64> {
  let file = matches!(kind, Kind::File(..));
  let abandon = matches!(&kind, Kind::File(n, ..) if n.crc);
  let careful = matches!(&kind, Kind::File(n, ..) if n.block_read);
  let mut s = Sim::new(c, kind, producers, what);
  if r.chance(1, 3) {
    let n = 2 + r.below(6) as u32;
    let u = s.len() as u32 / n;
    s.unit = (u > s.extra() as u32 + 4).then_some(u);
  }
  let (w, rd) = *r.pick(&[(6u64, 2u64), (4, 4), (3, 6), (8, 1)]);
  for _ in 0 .. steps {
    let ok = match r.below(w + rd + 4) {
      x if x < w => {
        let p = r.idx(producers);
        if s.has_open(p) && !r.chance(1, 20) {
          s.commit(p)
        } else if careful && s.reading() > 0 {
          // It would wait for the reader.
          s.finish_read()
        } else {
          let size = s.size_for(r);
          let a = s.reserve(p, size);
          if a.is_ok() && r.chance(2, 3) && s.has_open(p) { s.commit(p) } else { a }
        }
      },
      x if x < w + rd => {
        if s.reading() > 0 && r.chance(2, 3) {
          s.finish_read()
        } else {
          s.start_read(r.chance(1, 3))
        }
      },
      x if x == w + rd => {
        if s.lock_count() > 0 && r.chance(3, 4) {
          s.unlock(r.idx(3));
        } else if r.chance(1, 3) {
          s.lock();
        }
        Ok(())
      },
      x if x == w + rd + 1 => {
        if r.chance(1, 4) {
          s.commit(r.idx(producers))
        } else {
          s.finish_read()
        }
      },
      _ => {
        if file && r.chance(1, 3) {
          if !abandon && s.has_open(0) {
            s.commit(0).and_then(|()| s.reopen())
          } else {
            if r.chance(1, 3) {
              s.fill(0);
            }
            s.reopen()
          }
        } else {
          Ok(())
        }
      },
    };
    if ok.is_err() {
      break;
    }
    if s.lock_count() > 2 {
      s.unlock(0);
    }
  }
  let _ = s.drain();
  c.sample(|| format!("{}: {:?}", s.what, s.history));
  c.add("records delivered", s.delivered);
  c.add("records overwritten", s.overwritten);
  c.add("wraps", s.wraps);
  c.add("reopened", s.reopened);
  c.add("reservations given up", s.holes);
  (s.wraps > 0 && s.delivered > 0).then(|| vh::hash_of(&s.history))
}

/// Where the file is mapped.
pub fn mapped(path: &std::path::Path) -> usize {
  let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
  let path = path.to_string_lossy();
  maps
    .lines()
    .find(|l| l.ends_with(&*path))
    .and_then(|l| usize::from_str_radix(l.split('-').next()?, 16).ok())
    .expect("the file is not mapped")
}

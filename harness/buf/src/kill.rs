//! Processes that use a buffer and are killed.
use crate::ring::*;
use bd_buffer::buffer::{AggregateRingBuffer, PerRecordCrc32Check, RingBuffer};
use bd_buffer::{AbslCode, AllowOverwrite, Error};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::time::Duration;
use vh::{Check, Rng};

const RAM: u32 = 4096;

/// How far the process got, in memory that outlives it.
#[repr(C)]
struct Progress {
  ready: AtomicU64,
  started: AtomicU64,
  flushed: AtomicU64,
  finished: AtomicU64,
}

fn progress(path: &Path) -> &'static Progress {
  use std::os::fd::AsRawFd;
  let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
  f.set_len(4096).unwrap();
  // SAFETY: a fresh page that is never unmapped.
  unsafe {
    let p = libc::mmap(std::ptr::null_mut(), 4096, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
    assert_ne!(p, libc::MAP_FAILED);
    &*p.cast::<Progress>()
  }
}

fn aggregate(path: &Path, disk: u32, overwrite: bool) -> Result<std::sync::Arc<AggregateRingBuffer>, Error> {
  AggregateRingBuffer::new("t", RAM, path, disk + 40, PerRecordCrc32Check::Yes, if overwrite { AllowOverwrite::Yes } else { AllowOverwrite::Block }, stats(), stats())
}

/// "path disk overwrite reader first seed"
pub fn child(args: &str) {
  let a: Vec<&str> = args.split(' ').collect();
  let path = PathBuf::from(a[0]);
  let disk: u32 = a[1].parse().unwrap();
  let overwrite = a[2] == "true";
  let reader: u32 = a[3].parse().unwrap();
  let first: u32 = a[4].parse().unwrap();
  let r = &mut Rng::new(a[5].parse().unwrap());
  let p = progress(&path.with_extension("progress"));
  let ring = aggregate(&path, disk, overwrite).unwrap();
  let mut w = ring.clone().register_producer().unwrap();
  if reader == 1 {
    let mut q = ring.clone().register_consumer().unwrap();
    std::thread::spawn(move || loop {
      let id = identify(q.start_read(true).unwrap()).unwrap();
      q.finish_read().unwrap();
      p.finished.store(id.into(), SeqCst);
    });
  } else if reader == 2 {
    let mut q = ring.clone().register_cursor_consumer().unwrap();
    std::thread::spawn(move || {
      let mut out = std::collections::VecDeque::new();
      loop {
        out.push_back(identify(q.start_read(true).unwrap()).unwrap());
        if out.len() > 2 {
          q.advance_read_pointer().unwrap();
          p.finished.store(out.pop_front().unwrap().into(), SeqCst);
        }
      }
    });
  }
  p.ready.store(1, SeqCst);
  let mut id = first;
  loop {
    for _ in 0 .. 1 + r.below(12) {
      let size = 4 + r.below(200) as usize;
      p.started.store(id.into(), SeqCst);
      w.write(&content(id, size)).unwrap();
      id += 1;
    }
    ring.flush();
    p.flushed.store(u64::from(id) - 1, SeqCst);
  }
}

pub fn run(c: &Check, dir: &Path) {
  let exe = std::env::current_exe().unwrap();
  for case in 0 .. c.n(80, 6_000) {
    if c.only.is_some_and(|o| o != 1_000_000 + case) {
      continue;
    }
    if c.elapsed() > Duration::from_secs(c.n(25, 850)) || c.violated() {
      break;
    }
    let r = &mut Rng::new(c.seed ^ (1_000_000 + case).wrapping_mul(0x9e37_79b9));
    let overwrite = r.bool();
    let disk = RAM + *r.pick(&[0u32, 1, 100, 5_000, 60_000]);
    // (One that does not overwrite has to be read.)
    let reader = if overwrite { r.below(2) } else { 1 + r.below(2) };
    let path = dir.join(format!("k{case}"));
    let what = format!("case {}, {disk} bytes, overwrite {overwrite}, reader {reader}", 1_000_000 + case);
    c.now(|| what.clone());
    c.sample(|| what.clone());
    let p = progress(&path.with_extension("progress"));
    let mut first = 1u32;
    for life in 0 .. 3 {
      p.ready.store(0, SeqCst);
      let args = format!("{} {disk} {overwrite} {reader} {first} {}", path.display(), r.u64());
      let mut child = std::process::Command::new(&exe).args(["child"]).env("H_BUF_CHILD", args).stderr(std::process::Stdio::null()).spawn().unwrap();
      while p.ready.load(SeqCst) == 0 {
        if let Ok(Some(s)) = child.try_wait() {
          c.violation("died", &format!("{what}, life {life}: the process ended by itself with {s}"));
          return;
        }
        std::thread::sleep(Duration::from_micros(200));
      }
      std::thread::sleep(Duration::from_micros(r.below(6_000)));
      let early = child.try_wait().unwrap();
      child.kill().unwrap();
      child.wait().unwrap();
      c.ensure(early.is_none(), "died", || format!("{what}, life {life}: the process ended by itself with {early:?}"));
      let (started, flushed, finished) = (p.started.load(SeqCst), p.flushed.load(SeqCst), p.finished.load(SeqCst));
      let what = format!("{what}, life {life}: from {first} on, {started} started, {flushed} flushed, {finished} finished");
      let nv = Nv { size: disk + 40, crc: true, overwrite, block_read: true };
      let s = stats();
      // Read from a copy: the next life goes on with the file as it is.
      let copy = dir.join("kcopy");
      std::fs::copy(&path, &copy).unwrap();
      match nv.open(&copy, s.clone()) {
        Ok(ring) => {
          let mut q = ring.clone().register_consumer().unwrap();
          let mut got: Vec<u64> = vec![];
          loop {
            match q.start_read(false) {
              Ok(d) => match identify(d) {
                Some(id) => got.push(id.into()),
                None => c.violation("wrong-data", &format!("{what}: {} bytes that are no record", d.len())),
              },
              Err(Error::AbslStatus(AbslCode::Unavailable, _)) => break,
              Err(e) => {
                c.violation("read", &format!("{what}: {e}"));
                break;
              },
            }
            let _ = q.finish_read();
          }
          let k = snap(&s);
          c.ensure(k.loss == 0 && k.corrupted <= 1, "damaged", || format!("{what}: {k:?}"));
          c.ensure(got.windows(2).all(|w| w[0] < w[1]), "order", || format!("{what}: {got:?}"));
          c.ensure(got.iter().all(|g| *g <= started && *g > finished), "unexpected", || format!("{what}: {got:?}"));
          // One that was flushed and not read is there, unless it had to make room. The one after the finished one
          // may have been in reading.
          let space = i64::from(disk) - 2 * 212 - i64::try_from(started.saturating_sub(flushed) * 212).unwrap();
          let mut from = finished + 2;
          if overwrite {
            from = from.max((flushed + 1).saturating_sub(u64::try_from((space / 212).max(0)).unwrap()));
          }
          let from = from.max(u64::from(first));
          if from <= flushed {
            let missing: Vec<u64> = (from ..= flushed).filter(|i| !got.contains(i)).collect();
            c.ensure(missing.is_empty(), "lost", || format!("{what}: {missing:?} are missing in {got:?}"));
            c.add("kills: records required", flushed + 1 - from);
          }
          c.count("kills: opened");
          c.add("kills: records read", got.len() as u64);
          c.eval((!got.is_empty()).then(|| vh::hash_of(&got)));
        },
        Err(Error::AbslStatus(AbslCode::DataLoss, _)) => {
          c.count("kills: reported as lost");
          c.eval(None);
          let _ = std::fs::remove_file(&path);
        },
        Err(e) => c.violation("open", &format!("{what}: {e}")),
      }
      let _ = std::fs::remove_file(&copy);
      first = started as u32 + 1;
      p.flushed.store(0, SeqCst);
      p.finished.store(finished, SeqCst);
    }
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_file(path.with_extension("progress"));
  }
}

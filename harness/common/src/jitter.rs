//! Delays injected at arbitrary instructions: enrolled threads are hit by a signal whose handler
//! keeps them from going on for a while.

use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex, Once};
use std::time::Duration;

static SPIN: AtomicU64 = AtomicU64::new(0);
static HITS: AtomicU64 = AtomicU64::new(0);

extern "C" fn handler(_: libc::c_int) {
  HITS.fetch_add(1, Ordering::Relaxed);
  let now = || {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut t) };
    t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64
  };
  // Async-signal-safe, and errno is kept for the code that was interrupted.
  let e = unsafe { *libc::__errno_location() };
  let until = now() + SPIN.load(Ordering::Relaxed);
  while now() < until {
    std::hint::spin_loop();
  }
  unsafe { *libc::__errno_location() = e };
}

type Pool = Arc<Mutex<Vec<libc::pthread_t>>>;

pub struct Jitter {
  pool: Pool,
  stop: Arc<AtomicBool>,
  thread: Option<std::thread::JoinHandle<()>>,
}

pub struct Enrolled(Pool, libc::pthread_t);
impl Drop for Enrolled {
  fn drop(&mut self) {
    self.0.lock().unwrap().retain(|t| *t != self.1);
  }
}

/// How many delays were injected so far.
pub fn hits() -> u64 {
  HITS.load(Ordering::Relaxed)
}

impl Jitter {
  /// A delay of `delay` in one enrolled thread about every `every`.
  pub fn start(seed: u64, delay: Duration, every: Duration) -> Self {
    static I: Once = Once::new();
    I.call_once(|| unsafe {
      let mut a: libc::sigaction = std::mem::zeroed();
      a.sa_sigaction = handler as usize;
      a.sa_flags = libc::SA_RESTART;
      libc::sigaction(libc::SIGUSR2, &a, std::ptr::null_mut());
    });
    let pool = Pool::default();
    let stop = Arc::new(AtomicBool::new(false));
    let (p, s) = (pool.clone(), stop.clone());
    let mut r = crate::Rng::new(seed);
    let thread = std::thread::spawn(move || {
      while !s.load(Ordering::Relaxed) {
        let t = std::time::Instant::now();
        let gap = Duration::from_nanos(r.below(2 * every.as_nanos() as u64));
        while t.elapsed() < gap {
          std::hint::spin_loop();
        }
        SPIN.store(r.below(2 * delay.as_nanos() as u64), Ordering::Relaxed);
        let v = p.lock().unwrap();
        if v.is_empty() {
          drop(v);
          std::thread::sleep(Duration::from_micros(20));
        } else {
          unsafe { libc::pthread_kill(v[r.idx(v.len())], libc::SIGUSR2) };
        }
      }
    });
    Self { pool, stop, thread: Some(thread) }
  }
  /// Enrolls the calling thread until the guard is dropped.
  pub fn enroll(&self) -> Enrolled {
    self.handle().enroll()
  }
  pub fn handle(&self) -> Handle {
    Handle(self.pool.clone())
  }
}
#[derive(Clone)]
pub struct Handle(Pool);
impl Handle {
  /// Enrolls the calling thread until the guard is dropped.
  pub fn enroll(&self) -> Enrolled {
    let t = unsafe { libc::pthread_self() };
    self.0.lock().unwrap().push(t);
    Enrolled(self.0.clone(), t)
  }
}
impl Drop for Jitter {
  fn drop(&mut self) {
    self.stop.store(true, Ordering::Relaxed);
    if let Some(t) = self.thread.take() {
      let _ = t.join();
    }
  }
}

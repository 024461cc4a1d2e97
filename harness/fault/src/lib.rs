//! File operations that fail, or after which nothing reaches the disk any more as if the process had died.
//!
//! The functions of libc that change files are interposed: the executable's own definitions come before
//! those of the library. They count operations below one directory and do to one of them what was planned.

use libc::{c_char, c_int, c_uint, c_void, mode_t, off64_t, size_t, ssize_t};
use std::ffi::CStr;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Plan {
  Never,
  /// Like the end of the process before, after or in the middle of the operation with this number.
  Before(u64),
  After(u64),
  Torn(u64),
  /// Operations with these numbers fail.
  Fail(u64, u64),
  /// Reading files fails.
  Unreadable(u64, u64),
}

static ARMED: AtomicBool = AtomicBool::new(false);
static OPS: AtomicU64 = AtomicU64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
static HITS: AtomicU64 = AtomicU64::new(0);
static DEAD: AtomicBool = AtomicBool::new(false);
static ERRNO: AtomicI32 = AtomicI32::new(libc::EIO);
static PLAN: Mutex<Plan> = Mutex::new(Plan::Never);
static PREFIX: Mutex<Vec<u8>> = Mutex::new(Vec::new());
static FDS: [AtomicBool; 4096] = [const { AtomicBool::new(false) }; 4096];

/// What happened until `disarm`.
#[derive(Clone, Copy, Debug, Default)]
pub struct Report {
  /// Operations that change files.
  pub ops: u64,
  /// Operations that failed as planned.
  pub hits: u64,
  /// Nothing reached the disk after the planned one.
  pub dead: bool,
}

/// Plans for the operations below a directory.
pub fn arm(dir: &std::path::Path, plan: Plan, errno: i32) {
  use std::os::unix::ffi::OsStrExt;
  *PREFIX.lock().unwrap() = dir.as_os_str().as_bytes().to_vec();
  *PLAN.lock().unwrap() = plan;
  ERRNO.store(errno, SeqCst);
  OPS.store(0, SeqCst);
  READS.store(0, SeqCst);
  HITS.store(0, SeqCst);
  DEAD.store(false, SeqCst);
  ARMED.store(true, SeqCst);
}

pub fn report() -> Report {
  Report { ops: OPS.load(SeqCst), hits: HITS.load(SeqCst), dead: DEAD.load(SeqCst) }
}

pub fn disarm() -> Report {
  ARMED.store(false, SeqCst);
  report()
}

unsafe fn ours(path: *const c_char) -> bool {
  ARMED.load(SeqCst) && CStr::from_ptr(path).to_bytes().starts_with(&PREFIX.lock().unwrap())
}

fn tracked(fd: c_int) -> bool {
  ARMED.load(SeqCst) && usize::try_from(fd).ok().and_then(|f| FDS.get(f)).is_some_and(|f| f.load(SeqCst))
}

fn track(fd: c_int, on: bool) {
  if let Some(f) = usize::try_from(fd).ok().and_then(|f| FDS.get(f)) {
    f.store(on, SeqCst);
  }
}

enum Do {
  Go,
  Half,
  No,
  /// Done, and nothing more.
  GoLast,
  HalfLast,
}

fn decide() -> Do {
  if DEAD.load(SeqCst) {
    return Do::No;
  }
  let n = OPS.fetch_add(1, SeqCst);
  let plan = *PLAN.lock().unwrap();
  match plan {
    Plan::Before(a) if a == n => {
      DEAD.store(true, SeqCst);
      Do::No
    },
    Plan::After(a) if a == n => Do::GoLast,
    Plan::Torn(a) if a == n => Do::HalfLast,
    Plan::Fail(a, b) if (a .. b).contains(&n) => {
      HITS.fetch_add(1, SeqCst);
      Do::No
    },
    _ => Do::Go,
  }
}

fn err() -> c_int {
  unsafe { *libc::__errno_location() = ERRNO.load(SeqCst) };
  -1
}

fn change(f: impl FnOnce(bool) -> isize) -> isize {
  match decide() {
    Do::Go => f(false),
    Do::Half => f(true),
    Do::GoLast => {
      let r = f(false);
      DEAD.store(true, SeqCst);
      r
    },
    Do::HalfLast => {
      let r = f(true);
      DEAD.store(true, SeqCst);
      r
    },
    Do::No => err() as isize,
  }
}

fn unreadable() -> bool {
  let n = READS.fetch_add(1, SeqCst);
  let hit = matches!(*PLAN.lock().unwrap(), Plan::Unreadable(a, b) if (a .. b).contains(&n));
  if hit {
    HITS.fetch_add(1, SeqCst);
  }
  hit
}

unsafe fn sys_open(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
  let own = if dir == libc::AT_FDCWD { ours(path) } else { tracked(dir) };
  let real = || libc::syscall(libc::SYS_openat, dir, path, flags, c_uint::from(mode)) as c_int;
  if !own {
    let fd = real();
    track(fd, false);
    return fd;
  }
  let fd = if flags & (libc::O_CREAT | libc::O_TRUNC) != 0 {
    change(|_| real() as isize) as c_int
  } else if flags & libc::O_DIRECTORY == 0 && unreadable() {
    err()
  } else {
    real()
  };
  track(fd, true);
  fd
}

/// # Safety
/// As in libc, here and below.
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
  sys_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
  sys_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
  sys_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
  sys_open(dir, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
  let real = |n: size_t| libc::syscall(libc::SYS_write, fd, buf, n) as isize;
  if !tracked(fd) {
    return real(n);
  }
  change(|half| real(if half { n / 2 } else { n }))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
  if tracked(fd) && unreadable() {
    return err() as isize;
  }
  libc::syscall(libc::SYS_read, fd, buf, n) as isize
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, n: off64_t) -> c_int {
  let real = || libc::syscall(libc::SYS_ftruncate, fd, n) as isize;
  if !tracked(fd) {
    return real() as c_int;
  }
  change(|_| real()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
  let real = || libc::syscall(libc::SYS_unlink, path) as isize;
  if !ours(path) {
    return real() as c_int;
  }
  change(|_| real()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: c_int, path: *const c_char, flags: c_int) -> c_int {
  let real = || libc::syscall(libc::SYS_unlinkat, dir, path, flags) as isize;
  if !(if dir == libc::AT_FDCWD { ours(path) } else { tracked(dir) }) {
    return real() as c_int;
  }
  change(|_| real()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
  let real = || libc::syscall(libc::SYS_rmdir, path) as isize;
  if !ours(path) {
    return real() as c_int;
  }
  change(|_| real()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
  let real = || libc::syscall(libc::SYS_mkdir, path, c_uint::from(mode)) as isize;
  if !ours(path) {
    return real() as c_int;
  }
  change(|_| real()) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
  let real = || libc::syscall(libc::SYS_rename, from, to) as isize;
  if !ours(to) {
    return real() as c_int;
  }
  change(|_| real()) as c_int
}

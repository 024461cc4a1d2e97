//! Keeps every state that a piece of mapped memory, or a file, goes through while code runs: the states that a kill at
//! any instant can leave behind. For memory, its pages are write-protected, and every instruction that writes there is
//! let through alone; for a file, the code runs instruction by instruction.
use std::os::fd::RawFd;
use std::sync::Once;

pub const MAX: usize = 1024;

struct Watch {
  base: *const u8,
  len: usize,
  fd: RawFd,
  last: [u8; MAX],
  last_len: usize,
  arena: Vec<u8>,
  ends: Vec<usize>,
  steps: u64,
  full: bool,
}

static mut WATCH: *mut Watch = std::ptr::null_mut();

const TF: i64 = 0x100;

extern "C" fn trap(_: libc::c_int, _: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
  unsafe {
    if WATCH.is_null() {
      return;
    }
    let w = &mut *WATCH;
    w.steps += 1;
    let e = *libc::__errno_location();
    look(w);
    if w.fd < 0 {
      protect(w, libc::PROT_READ);
      let ctx = ctx.cast::<libc::ucontext_t>();
      (*ctx).uc_mcontext.gregs[libc::REG_EFL as usize] &= !TF;
    }
    *libc::__errno_location() = e;
  }
}

extern "C" fn fault(_: libc::c_int, info: *mut libc::siginfo_t, ctx: *mut libc::c_void) {
  unsafe {
    let at = (*info).si_addr() as usize;
    let ours = !WATCH.is_null() && (*WATCH).fd < 0 && at >= page(&*WATCH) && at < page(&*WATCH) + pages(&*WATCH);
    if !ours {
      // A real one: it happens again.
      let mut a: libc::sigaction = std::mem::zeroed();
      a.sa_sigaction = libc::SIG_DFL;
      libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut());
      return;
    }
    let e = *libc::__errno_location();
    protect(&*WATCH, libc::PROT_READ | libc::PROT_WRITE);
    let ctx = ctx.cast::<libc::ucontext_t>();
    (*ctx).uc_mcontext.gregs[libc::REG_EFL as usize] |= TF;
    *libc::__errno_location() = e;
  }
}

fn page(w: &Watch) -> usize {
  w.base as usize & !4095
}

fn pages(w: &Watch) -> usize {
  (w.base as usize + w.len).next_multiple_of(4096) - page(w)
}

unsafe fn protect(w: &Watch, prot: i32) {
  libc::mprotect(page(w) as *mut libc::c_void, pages(w), prot);
}

unsafe fn look(w: &mut Watch) {
  let mut buf = [0u8; MAX];
  let n;
  if w.fd >= 0 {
    let k = libc::pread(w.fd, buf.as_mut_ptr().cast(), MAX, 0);
    n = if k < 0 { 0 } else { k as usize };
  } else {
    n = w.len;
    std::ptr::copy_nonoverlapping(w.base, buf.as_mut_ptr(), n);
  }
  if n == w.last_len && buf[.. n] == w.last[.. n] {
    return;
  }
  w.last_len = n;
  w.last[.. n].copy_from_slice(&buf[.. n]);
  // (No allocation here: that could be what was interrupted.)
  if w.arena.len() + n > w.arena.capacity() || w.ends.len() == w.ends.capacity() {
    w.full = true;
    return;
  }
  w.arena.extend_from_slice(&buf[.. n]);
  w.ends.push(w.arena.len());
}

pub struct States {
  arena: Vec<u8>,
  ends: Vec<usize>,
  pub steps: u64,
}

impl States {
  pub fn iter(&self) -> impl Iterator<Item = &[u8]> {
    let mut from = 0;
    self.ends.iter().map(move |e| {
      let s = &self.arena[from .. *e];
      from = *e;
      s
    })
  }
  pub fn len(&self) -> usize {
    self.ends.len()
  }
}

pub enum What {
  Memory(usize, usize),
  File(RawFd),
}

/// Runs `f`; the states begin with the one before.
pub fn run<T>(what: What, f: impl FnOnce() -> T) -> (T, States) {
  static I: Once = Once::new();
  I.call_once(|| unsafe {
    let mut a: libc::sigaction = std::mem::zeroed();
    a.sa_sigaction = trap as usize;
    a.sa_flags = libc::SA_SIGINFO | libc::SA_RESTART;
    assert_eq!(libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()), 0);
    a.sa_sigaction = fault as usize;
    assert_eq!(libc::sigaction(libc::SIGSEGV, &a, std::ptr::null_mut()), 0);
  });
  let mut w = Box::new(Watch {
    base: std::ptr::null(),
    len: 0,
    fd: -1,
    last: [0; MAX],
    last_len: usize::MAX,
    arena: Vec::with_capacity(1 << 20),
    ends: Vec::with_capacity(1 << 12),
    steps: 0,
    full: false,
  });
  match what {
    What::Memory(base, len) => {
      assert!(len <= MAX);
      w.base = base as *const u8;
      w.len = len;
    },
    What::File(fd) => w.fd = fd,
  }
  unsafe {
    look(&mut w);
    let p = Box::into_raw(w);
    WATCH = p;
    let memory = (*p).fd < 0;
    let out;
    if memory {
      protect(&*p, libc::PROT_READ);
      out = f();
      protect(&*p, libc::PROT_READ | libc::PROT_WRITE);
    } else {
      std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
      out = f();
      std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    WATCH = std::ptr::null_mut();
    let mut w = Box::from_raw(p);
    look(&mut w);
    assert!(!w.full, "too many states");
    (out, States { arena: w.arena, ends: w.ends, steps: w.steps })
  }
}

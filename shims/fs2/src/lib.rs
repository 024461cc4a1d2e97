//! Stand-in for fs2, which is not on this machine: file locks by flock(2).
use std::fs::File;
use std::io::{Error, Result};
use std::os::fd::AsRawFd;

pub trait FileExt {
    fn lock_shared(&self) -> Result<()>;
    fn lock_exclusive(&self) -> Result<()>;
    fn try_lock_shared(&self) -> Result<()>;
    fn try_lock_exclusive(&self) -> Result<()>;
    fn unlock(&self) -> Result<()>;
    fn allocate(&self, len: u64) -> Result<()>;
}

fn flock(f: &File, op: i32) -> Result<()> {
    if unsafe { libc::flock(f.as_raw_fd(), op) } < 0 {
        Err(Error::last_os_error())
    } else {
        Ok(())
    }
}

impl FileExt for File {
    fn lock_shared(&self) -> Result<()> {
        flock(self, libc::LOCK_SH)
    }
    fn lock_exclusive(&self) -> Result<()> {
        flock(self, libc::LOCK_EX)
    }
    fn try_lock_shared(&self) -> Result<()> {
        flock(self, libc::LOCK_SH | libc::LOCK_NB)
    }
    fn try_lock_exclusive(&self) -> Result<()> {
        flock(self, libc::LOCK_EX | libc::LOCK_NB)
    }
    fn unlock(&self) -> Result<()> {
        flock(self, libc::LOCK_UN)
    }
    fn allocate(&self, len: u64) -> Result<()> {
        let r = unsafe { libc::posix_fallocate(self.as_raw_fd(), 0, len as libc::off_t) };
        if r == 0 {
            Ok(())
        } else {
            Err(Error::from_raw_os_error(r))
        }
    }
}

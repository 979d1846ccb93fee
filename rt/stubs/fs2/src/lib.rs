//! Stand-in for fs2.
use std::fs::File;
use std::io;
use std::os::fd::AsRawFd;
pub trait FileExt {
  fn try_lock_exclusive(&self) -> io::Result<()>;
  fn allocate(&self, len: u64) -> io::Result<()>;
}
impl FileExt for File {
  fn try_lock_exclusive(&self) -> io::Result<()> {
    if unsafe { libc::flock(self.as_raw_fd(), libc::LOCK_EX | libc::LOCK_NB) } < 0 { Err(io::Error::last_os_error()) } else { Ok(()) }
  }
  fn allocate(&self, len: u64) -> io::Result<()> { if self.metadata()?.len() < len { self.set_len(len) } else { Ok(()) } }
}

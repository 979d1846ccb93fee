//! Stand-in for memmap2::MmapMut.
use std::fs::File;
use std::io;
use std::os::fd::AsRawFd;
pub struct MmapMut { p: *mut u8, n: usize }
unsafe impl Send for MmapMut {}
unsafe impl Sync for MmapMut {}
impl MmapMut {
  /// # Safety
  /// As in memmap2.
  pub unsafe fn map_mut(f: &File) -> io::Result<Self> {
    let n = f.metadata()?.len() as usize;
    let p = libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0);
    if p == libc::MAP_FAILED { return Err(io::Error::last_os_error()); }
    Ok(Self { p: p.cast(), n })
  }
  pub fn flush(&self) -> io::Result<()> { Ok(()) }
  pub fn flush_async(&self) -> io::Result<()> { Ok(()) }
}
impl std::ops::Deref for MmapMut { type Target = [u8]; fn deref(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.p, self.n) } } }
impl std::ops::DerefMut for MmapMut { fn deref_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.p, self.n) } } }
impl AsRef<[u8]> for MmapMut { fn as_ref(&self) -> &[u8] { self } }
impl AsMut<[u8]> for MmapMut { fn as_mut(&mut self) -> &mut [u8] { self } }
impl Drop for MmapMut { fn drop(&mut self) { unsafe { libc::munmap(self.p.cast(), self.n); } } }

//! Stand-in for flate2 on top of miniz_oxide (flate2 itself is not in this sandbox's registry for the
//! toolchain the harness uses). Harness code, not code under test.
use std::io;
#[derive(Clone, Copy, Debug)]
pub struct Compression(u32);
impl Compression {
  pub const fn new(l: u32) -> Self { Self(l) }
  pub const fn fast() -> Self { Self(1) }
  pub const fn best() -> Self { Self(9) }
  pub const fn level(&self) -> u32 { self.0 }
}
impl Default for Compression { fn default() -> Self { Self(6) } }
pub mod write {
  use super::*;
  use miniz_oxide::deflate::core::{create_comp_flags_from_zip_params, CompressorOxide};
  use miniz_oxide::deflate::stream::deflate;
  use miniz_oxide::inflate::stream::{inflate, InflateState};
  use miniz_oxide::{DataFormat, MZError, MZFlush, MZStatus};
  pub struct ZlibEncoder<W: io::Write> { w: Option<W>, c: Box<CompressorOxide>, done: bool }
  impl<W: io::Write> ZlibEncoder<W> {
    pub fn new(w: W, l: Compression) -> Self {
      let c = CompressorOxide::new(create_comp_flags_from_zip_params(l.0 as i32, 1, 0));
      Self { w: Some(w), c: Box::new(c), done: false }
    }
    pub fn get_ref(&self) -> &W { self.w.as_ref().unwrap() }
    pub fn get_mut(&mut self) -> &mut W { self.w.as_mut().unwrap() }
    fn run(&mut self, mut b: &[u8], f: MZFlush) -> io::Result<()> {
      let mut out = vec![0u8; 32 * 1024];
      loop {
        let r = deflate(&mut self.c, b, &mut out, f);
        b = &b[r.bytes_consumed ..];
        self.w.as_mut().unwrap().write_all(&out[.. r.bytes_written])?;
        match r.status {
          Ok(MZStatus::StreamEnd) => return Ok(()),
          Ok(_) => {
            if b.is_empty() && r.bytes_written < out.len() && f != MZFlush::Finish { return Ok(()); }
          },
          Err(MZError::Buf) => {
            if b.is_empty() && f != MZFlush::Finish { return Ok(()); }
            if r.bytes_written == 0 && r.bytes_consumed == 0 { return Ok(()); }
          },
          Err(e) => return Err(io::Error::new(io::ErrorKind::Other, format!("{e:?}"))),
        }
      }
    }
    pub fn reset(&mut self, w: W) -> io::Result<W> {
      if !self.done { self.run(&[], MZFlush::Finish)?; }
      self.c.reset();
      self.done = false;
      Ok(self.w.replace(w).unwrap())
    }
    pub fn try_finish(&mut self) -> io::Result<()> { if !self.done { self.run(&[], MZFlush::Finish)?; self.done = true; } Ok(()) }
    pub fn finish(mut self) -> io::Result<W> { self.try_finish()?; Ok(self.w.take().unwrap()) }
  }
  impl<W: io::Write> io::Write for ZlibEncoder<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.run(b, MZFlush::None)?; Ok(b.len()) }
    fn flush(&mut self) -> io::Result<()> { self.run(&[], MZFlush::Sync)?; self.w.as_mut().unwrap().flush() }
  }
  pub struct ZlibDecoder<W: io::Write> { w: Option<W>, s: Box<InflateState>, end: bool }
  impl<W: io::Write> ZlibDecoder<W> {
    pub fn new(w: W) -> Self { Self { w: Some(w), s: InflateState::new_boxed(DataFormat::Zlib), end: false } }
    pub fn get_ref(&self) -> &W { self.w.as_ref().unwrap() }
    pub fn get_mut(&mut self) -> &mut W { self.w.as_mut().unwrap() }
    fn run(&mut self, mut b: &[u8]) -> io::Result<usize> {
      let mut n = 0;
      let mut out = vec![0u8; 32 * 1024];
      loop {
        if self.end { return Ok(n); }
        let r = inflate(&mut self.s, b, &mut out, MZFlush::None);
        b = &b[r.bytes_consumed ..];
        n += r.bytes_consumed;
        self.w.as_mut().unwrap().write_all(&out[.. r.bytes_written])?;
        match r.status {
          Ok(MZStatus::StreamEnd) => self.end = true,
          Ok(_) | Err(MZError::Buf) => { if r.bytes_written == 0 && (b.is_empty() || r.bytes_consumed == 0) { return Ok(n); } },
          Err(e) => return Err(io::Error::new(io::ErrorKind::InvalidInput, format!("corrupt deflate stream {e:?}"))),
        }
      }
    }
    pub fn reset(&mut self, w: W) -> io::Result<W> {
      self.s = InflateState::new_boxed(DataFormat::Zlib);
      self.end = false;
      Ok(self.w.replace(w).unwrap())
    }
    pub fn try_finish(&mut self) -> io::Result<()> { Ok(()) }
    pub fn finish(mut self) -> io::Result<W> {
      if !self.end { return Err(io::Error::new(io::ErrorKind::UnexpectedEof, "incomplete stream")); }
      Ok(self.w.take().unwrap())
    }
  }
  impl<W: io::Write> io::Write for ZlibDecoder<W> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.run(b) }
    fn flush(&mut self) -> io::Result<()> { self.w.as_mut().unwrap().flush() }
  }
}
pub mod read {
  use super::*;
  use std::io::Write;
  pub struct ZlibEncoder<R> { r: Option<R>, l: Compression, out: io::Cursor<Vec<u8>> }
  impl<R: io::Read> ZlibEncoder<R> { pub fn new(r: R, l: Compression) -> Self { Self { r: Some(r), l, out: Default::default() } } }
  impl<R: io::Read> io::Read for ZlibEncoder<R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
      if let Some(mut r) = self.r.take() {
        let mut v = vec![];
        r.read_to_end(&mut v)?;
        let mut e = write::ZlibEncoder::new(vec![], self.l);
        e.write_all(&v)?;
        self.out = io::Cursor::new(e.finish()?);
      }
      self.out.read(b)
    }
  }
  pub struct ZlibDecoder<R> { r: Option<R>, out: io::Cursor<Vec<u8>> }
  impl<R: io::Read> ZlibDecoder<R> { pub fn new(r: R) -> Self { Self { r: Some(r), out: Default::default() } } }
  impl<R: io::Read> io::Read for ZlibDecoder<R> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
      if let Some(mut r) = self.r.take() {
        let mut v = vec![];
        r.read_to_end(&mut v)?;
        let mut e = write::ZlibDecoder::new(vec![]);
        e.write_all(&v)?;
        self.out = io::Cursor::new(e.finish()?);
      }
      self.out.read(b)
    }
  }
}

//! Stand-in for the locked git fork of rust-protobuf, which cannot be fetched here. It implements the
//! part of the 4.0.0-alpha.0 runtime API that /repo's generated code and crates use: messages, the
//! wire format, enums; reflection is only type-checked (using it panics). It is part of the harness,
//! not of the code under test.
use std::fmt;
use std::ops::Deref;

pub const VERSION_4_0_0_ALPHA_0: () = ();

#[derive(Debug)]
pub enum Error { Eof, Malformed(String) }
impl fmt::Display for Error {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;

// ---- Chars ----
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Chars(String);
impl Chars {
  pub const fn new() -> Self { Self(String::new()) }
  pub fn clear(&mut self) { self.0.clear() }
  pub fn from_bytes(b: bytes::Bytes) -> std::result::Result<Self, std::str::Utf8Error> {
    Ok(Self(std::str::from_utf8(&b)?.to_string()))
  }
}
impl fmt::Debug for Chars { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Debug::fmt(&self.0, f) } }
impl fmt::Display for Chars { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(&self.0, f) } }
impl Deref for Chars { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl From<&str> for Chars { fn from(s: &str) -> Self { Self(s.into()) } }
impl From<String> for Chars { fn from(s: String) -> Self { Self(s) } }
impl AsRef<str> for Chars { fn as_ref(&self) -> &str { &self.0 } }
impl std::borrow::Borrow<str> for Chars { fn borrow(&self) -> &str { &self.0 } }

// ---- MessageField ----
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct MessageField<T>(pub Option<Box<T>>);
impl<T: fmt::Debug> fmt::Debug for MessageField<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
impl<T> Default for MessageField<T> { fn default() -> Self { Self(None) } }
impl<T> MessageField<T> {
  pub const fn none() -> Self { Self(None) }
  pub fn some(v: T) -> Self { Self(Some(Box::new(v))) }
  pub fn from_option(v: Option<T>) -> Self { Self(v.map(Box::new)) }
  pub fn is_some(&self) -> bool { self.0.is_some() }
  pub fn is_none(&self) -> bool { self.0.is_none() }
  pub fn into_option(self) -> Option<T> { self.0.map(|b| *b) }
  pub fn as_ref(&self) -> Option<&T> { self.0.as_deref() }
  pub fn as_mut(&mut self) -> Option<&mut T> { self.0.as_deref_mut() }
  pub fn take(&mut self) -> Option<T> { self.0.take().map(|b| *b) }
  pub fn clear(&mut self) { self.0 = None }
  pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> Option<U> { self.into_option().map(f) }
  pub fn unwrap(self) -> T { self.into_option().unwrap() }
  pub fn ok_or<E>(self, e: E) -> std::result::Result<T, E> { self.into_option().ok_or(e) }
  pub fn ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> std::result::Result<T, E> { self.into_option().ok_or_else(f) }
  pub fn iter(&self) -> impl Iterator<Item = &T> { self.as_ref().into_iter() }
}
impl<T: Default> MessageField<T> {
  pub fn unwrap_or_default(self) -> T { self.into_option().unwrap_or_default() }
  pub fn mut_or_insert_default(&mut self) -> &mut T { self.0.get_or_insert_with(Default::default) }
}
impl<T: Message> MessageField<T> {
  pub fn get_or_default(&self) -> &T { self.as_ref().unwrap_or_else(|| T::default_instance()) }
}
impl<T: Message> Deref for MessageField<T> { type Target = T; fn deref(&self) -> &T { self.get_or_default() } }
impl<T: Message + Default> std::ops::DerefMut for MessageField<T> { fn deref_mut(&mut self) -> &mut T { self.mut_or_insert_default() } }
impl<T> From<Option<T>> for MessageField<T> { fn from(o: Option<T>) -> Self { Self::from_option(o) } }
impl<T> From<T> for MessageField<T> { fn from(o: T) -> Self { Self::some(o) } }
impl<T> IntoIterator for MessageField<T> { type Item = T; type IntoIter = std::option::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.into_option().into_iter() } }
impl<'a, T> IntoIterator for &'a MessageField<T> { type Item = &'a T; type IntoIter = std::option::IntoIter<&'a T>; fn into_iter(self) -> Self::IntoIter { self.as_ref().into_iter() } }

// ---- Enums ----
pub trait Enum: Eq + Sized + Copy + fmt::Debug + Default + 'static {
  const NAME: &'static str;
  const VALUES: &'static [Self];
  fn value(&self) -> i32;
  fn from_i32(value: i32) -> Option<Self>;
  fn from_str(s: &str) -> Option<Self>;
}
pub trait EnumFull: Enum {
  fn enum_descriptor() -> reflect::EnumDescriptor;
  fn descriptor(&self) -> reflect::EnumValueDescriptor;
}
pub trait Oneof {}
pub trait OneofFull { fn descriptor() -> reflect::OneofDescriptor; }

pub struct EnumOrUnknown<E> { value: i32, m: std::marker::PhantomData<E> }
impl<E> Clone for EnumOrUnknown<E> { fn clone(&self) -> Self { *self } }
impl<E> Copy for EnumOrUnknown<E> {}
impl<E> PartialEq for EnumOrUnknown<E> { fn eq(&self, o: &Self) -> bool { self.value == o.value } }
impl<E> Eq for EnumOrUnknown<E> {}
impl<E> std::hash::Hash for EnumOrUnknown<E> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.value.hash(h) } }
impl<E> fmt::Debug for EnumOrUnknown<E> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.value.fmt(f) } }
impl<E: Enum> Default for EnumOrUnknown<E> { fn default() -> Self { Self::new(E::default()) } }
impl<E: Enum> From<E> for EnumOrUnknown<E> { fn from(e: E) -> Self { Self::new(e) } }
impl<E> EnumOrUnknown<E> {
  pub const fn from_i32(value: i32) -> Self { Self { value, m: std::marker::PhantomData } }
  pub const fn value(&self) -> i32 { self.value }
}
impl<E: Enum> EnumOrUnknown<E> {
  pub fn new(e: E) -> Self { Self::from_i32(e.value()) }
  pub fn enum_value(&self) -> std::result::Result<E, i32> { E::from_i32(self.value).ok_or(self.value) }
  pub fn enum_value_or(&self, e: E) -> E { E::from_i32(self.value).unwrap_or(e) }
  pub fn enum_value_or_default(&self) -> E { E::from_i32(self.value).unwrap_or_default() }
  pub fn unwrap(&self) -> E { E::from_i32(self.value).unwrap() }
}

// ---- SpecialFields ----
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct UnknownFields { raw: Vec<(u32, Vec<u8>)> }
#[derive(Default)]
pub struct CachedSize(std::sync::atomic::AtomicU32);
impl CachedSize {
  pub fn set(&self, v: u32) { self.0.store(v, std::sync::atomic::Ordering::Relaxed) }
  pub fn get(&self) -> u32 { self.0.load(std::sync::atomic::Ordering::Relaxed) }
}
impl Clone for CachedSize { fn clone(&self) -> Self { let c = Self::default(); c.set(self.get()); c } }
impl PartialEq for CachedSize { fn eq(&self, _: &Self) -> bool { true } }
impl Eq for CachedSize {}
impl std::hash::Hash for CachedSize { fn hash<H: std::hash::Hasher>(&self, _: &mut H) {} }
impl fmt::Debug for CachedSize { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("_") } }
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct SpecialFields { unknown: UnknownFields, cached: CachedSize }
impl SpecialFields {
  pub const fn new() -> Self {
    Self { unknown: UnknownFields { raw: Vec::new() }, cached: CachedSize(std::sync::atomic::AtomicU32::new(0)) }
  }
  pub fn unknown_fields(&self) -> &UnknownFields { &self.unknown }
  pub fn mut_unknown_fields(&mut self) -> &mut UnknownFields { &mut self.unknown }
  pub fn cached_size(&self) -> &CachedSize { &self.cached }
  pub fn clear(&mut self) { self.unknown.raw.clear() }
}

// ---- Message ----
pub trait Message: Default + Clone + Send + Sync + Sized + PartialEq + fmt::Display + fmt::Debug + 'static {
  const NAME: &'static str;
  fn is_initialized(&self) -> bool;
  fn merge_from(&mut self, is: &mut CodedInputStream<'_>) -> Result<()>;
  fn compute_size(&self) -> u64;
  fn write_to_with_cached_sizes(&self, os: &mut CodedOutputStream<'_>) -> Result<()>;
  fn special_fields(&self) -> &SpecialFields;
  fn mut_special_fields(&mut self) -> &mut SpecialFields;
  fn new() -> Self;
  fn clear(&mut self);
  fn default_instance() -> &'static Self;

  fn parse_from(is: &mut CodedInputStream<'_>) -> Result<Self> { let mut m = Self::new(); m.merge_from(is)?; Ok(m) }
  fn parse_from_bytes(b: &[u8]) -> Result<Self> { Self::parse_from(&mut CodedInputStream::from_bytes(b)) }
  fn parse_from_reader(r: &mut dyn std::io::Read) -> Result<Self> {
    let mut v = vec![];
    r.read_to_end(&mut v).map_err(|e| Error::Malformed(e.to_string()))?;
    Self::parse_from_bytes(&v)
  }
  fn parse_from_tokio_bytes(b: &bytes::Bytes) -> Result<Self> { Self::parse_from_bytes(b) }
  fn merge_from_bytes(&mut self, b: &[u8]) -> Result<()> { self.merge_from(&mut CodedInputStream::from_bytes(b)) }
  fn write_to(&self, os: &mut CodedOutputStream<'_>) -> Result<()> { self.compute_size(); self.write_to_with_cached_sizes(os) }
  fn cached_size(&self) -> u32 { self.special_fields().cached_size().get() }
  fn write_to_vec(&self, v: &mut Vec<u8>) -> Result<()> {
    let mut os = CodedOutputStream::vec(v);
    self.write_to(&mut os)?;
    os.flush()
  }
  fn write_to_bytes(&self) -> Result<Vec<u8>> { let mut v = vec![]; self.write_to_vec(&mut v)?; Ok(v) }
  fn write_to_writer(&self, w: &mut dyn std::io::Write) -> Result<()> {
    let v = self.write_to_bytes()?;
    w.write_all(&v).map_err(|e| Error::Malformed(e.to_string()))
  }
}
pub trait MessageFull: Message { fn descriptor() -> reflect::MessageDescriptor; }
pub trait MessageDyn: Send + Sync + 'static { fn compute_size_dyn(&self) -> u64; fn write_to_bytes_dyn(&self) -> Result<Vec<u8>>; }
impl<M: MessageFull> MessageDyn for M {
  fn compute_size_dyn(&self) -> u64 { self.compute_size() }
  fn write_to_bytes_dyn(&self) -> Result<Vec<u8>> { self.write_to_bytes() }
}

// ---- Input ----
pub struct CodedInputStream<'a> { d: &'a [u8], p: usize, limit: usize }
impl<'a> CodedInputStream<'a> {
  pub fn from_bytes(d: &'a [u8]) -> Self { Self { d, p: 0, limit: d.len() } }
  pub fn from_tokio_bytes(d: &'a bytes::Bytes) -> Self { Self::from_bytes(d) }
  pub fn eof(&mut self) -> Result<bool> { Ok(self.p >= self.limit) }
  pub fn push_limit(&mut self, n: u64) -> Result<u64> {
    let end = (self.p as u64).checked_add(n).filter(|e| *e <= self.limit as u64).ok_or(Error::Eof)?;
    let old = self.limit as u64;
    self.limit = end as usize;
    Ok(old)
  }
  pub fn pop_limit(&mut self, old: u64) { self.limit = old as usize; }
  pub fn read_raw_byte(&mut self) -> Result<u8> {
    if self.p >= self.limit { return Err(Error::Eof); }
    self.p += 1;
    Ok(self.d[self.p - 1])
  }
  pub fn read_raw_varint64(&mut self) -> Result<u64> {
    let mut r = 0u64;
    for i in 0 .. 10 {
      let b = self.read_raw_byte()?;
      r |= u64::from(b & 0x7f).wrapping_shl(7 * i);
      if b & 0x80 == 0 { return Ok(r); }
    }
    Err(Error::Malformed("varint".into()))
  }
  pub fn read_raw_varint32(&mut self) -> Result<u32> { Ok(self.read_raw_varint64()? as u32) }
  pub fn read_raw_tag_or_eof(&mut self) -> Result<Option<u32>> {
    if self.p >= self.limit { return Ok(None); }
    let t = self.read_raw_varint32()?;
    if t >> 3 == 0 { return Err(Error::Malformed("tag".into())); }
    Ok(Some(t))
  }
  fn take(&mut self, n: u64) -> Result<&'a [u8]> {
    if n > (self.limit - self.p) as u64 { return Err(Error::Eof); }
    let s = &self.d[self.p .. self.p + n as usize];
    self.p += n as usize;
    Ok(s)
  }
  fn read_len(&mut self) -> Result<&'a [u8]> { let n = self.read_raw_varint64()?; self.take(n) }
  pub fn read_bytes(&mut self) -> Result<Vec<u8>> { Ok(self.read_len()?.to_vec()) }
  pub fn read_tokio_bytes(&mut self) -> Result<bytes::Bytes> { Ok(bytes::Bytes::copy_from_slice(self.read_len()?)) }
  pub fn read_string(&mut self) -> Result<String> {
    String::from_utf8(self.read_bytes()?).map_err(|_| Error::Malformed("utf8".into()))
  }
  pub fn read_tokio_chars(&mut self) -> Result<Chars> { Ok(Chars(self.read_string()?)) }
  pub fn read_message<M: Message>(&mut self) -> Result<M> {
    let mut m = M::new();
    self.merge_message(&mut m)?;
    Ok(m)
  }
  pub fn merge_message<M: Message>(&mut self, m: &mut M) -> Result<()> {
    let n = self.read_raw_varint64()?;
    let old = self.push_limit(n)?;
    m.merge_from(self)?;
    self.pop_limit(old);
    Ok(())
  }
  pub fn read_int64(&mut self) -> Result<i64> { Ok(self.read_raw_varint64()? as i64) }
  pub fn read_int32(&mut self) -> Result<i32> { Ok(self.read_raw_varint64()? as i32) }
  pub fn read_uint64(&mut self) -> Result<u64> { self.read_raw_varint64() }
  pub fn read_uint32(&mut self) -> Result<u32> { Ok(self.read_raw_varint64()? as u32) }
  pub fn read_sint64(&mut self) -> Result<i64> { let v = self.read_raw_varint64()?; Ok(((v >> 1) as i64) ^ -((v & 1) as i64)) }
  pub fn read_sint32(&mut self) -> Result<i32> { Ok(self.read_sint64()? as i32) }
  pub fn read_bool(&mut self) -> Result<bool> { Ok(self.read_raw_varint64()? != 0) }
  pub fn read_fixed32(&mut self) -> Result<u32> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
  pub fn read_fixed64(&mut self) -> Result<u64> { Ok(u64::from_le_bytes(self.take(8)?.try_into().unwrap())) }
  pub fn read_sfixed32(&mut self) -> Result<i32> { Ok(self.read_fixed32()? as i32) }
  pub fn read_sfixed64(&mut self) -> Result<i64> { Ok(self.read_fixed64()? as i64) }
  pub fn read_double(&mut self) -> Result<f64> { Ok(f64::from_bits(self.read_fixed64()?)) }
  pub fn read_float(&mut self) -> Result<f32> { Ok(f32::from_bits(self.read_fixed32()?)) }
  pub fn read_enum_or_unknown<E: Enum>(&mut self) -> Result<EnumOrUnknown<E>> { Ok(EnumOrUnknown::from_i32(self.read_int32()?)) }
  pub fn read_repeated_packed_double_into(&mut self, v: &mut Vec<f64>) -> Result<()> {
    let n = self.read_raw_varint64()?;
    let old = self.push_limit(n)?;
    while self.p < self.limit { v.push(self.read_double()?); }
    self.pop_limit(old);
    Ok(())
  }
}

// ---- Output ----
pub struct CodedOutputStream<'a> { v: Out<'a> }
enum Out<'a> { Vec(&'a mut Vec<u8>), Bytes(&'a mut [u8], usize), Writer(&'a mut dyn std::io::Write) }
impl<'a> CodedOutputStream<'a> {
  pub fn vec(v: &'a mut Vec<u8>) -> Self { Self { v: Out::Vec(v) } }
  pub fn bytes(v: &'a mut [u8]) -> Self { Self { v: Out::Bytes(v, 0) } }
  pub fn new(v: &'a mut dyn std::io::Write) -> Self { Self { v: Out::Writer(v) } }
  pub fn flush(&mut self) -> Result<()> { Ok(()) }
  pub fn write_raw_bytes(&mut self, b: &[u8]) -> Result<()> {
    match &mut self.v {
      Out::Vec(v) => v.extend_from_slice(b),
      Out::Bytes(s, p) => {
        let end = *p + b.len();
        if end > s.len() { return Err(Error::Eof); }
        s[*p .. end].copy_from_slice(b);
        *p = end;
      },
      Out::Writer(w) => w.write_all(b).map_err(|e| Error::Malformed(e.to_string()))?,
    }
    Ok(())
  }
  pub fn write_raw_varint64(&mut self, mut x: u64) -> Result<()> {
    while x >= 0x80 { self.write_raw_bytes(&[(x as u8 & 0x7f) | 0x80])?; x >>= 7; }
    self.write_raw_bytes(&[x as u8])
  }
  pub fn write_raw_varint32(&mut self, x: u32) -> Result<()> { self.write_raw_varint64(u64::from(x)) }
  pub fn write_tag(&mut self, n: u32, wt: u32) -> Result<()> { self.write_raw_varint32(n << 3 | wt) }
  pub fn write_bytes(&mut self, n: u32, b: &[u8]) -> Result<()> { self.write_tag(n, 2)?; self.write_raw_varint64(b.len() as u64)?; self.write_raw_bytes(b) }
  pub fn write_string(&mut self, n: u32, s: &str) -> Result<()> { self.write_bytes(n, s.as_bytes()) }
  fn vi(&mut self, n: u32, v: u64) -> Result<()> { self.write_tag(n, 0)?; self.write_raw_varint64(v) }
  pub fn write_int64(&mut self, n: u32, v: i64) -> Result<()> { self.vi(n, v as u64) }
  pub fn write_int32(&mut self, n: u32, v: i32) -> Result<()> { self.vi(n, v as i64 as u64) }
  pub fn write_uint64(&mut self, n: u32, v: u64) -> Result<()> { self.vi(n, v) }
  pub fn write_uint32(&mut self, n: u32, v: u32) -> Result<()> { self.vi(n, u64::from(v)) }
  pub fn write_sint64(&mut self, n: u32, v: i64) -> Result<()> { self.vi(n, ((v << 1) ^ (v >> 63)) as u64) }
  pub fn write_sint32(&mut self, n: u32, v: i32) -> Result<()> { self.write_sint64(n, i64::from(v)) }
  pub fn write_bool(&mut self, n: u32, v: bool) -> Result<()> { self.vi(n, u64::from(v)) }
  pub fn write_enum(&mut self, n: u32, v: i32) -> Result<()> { self.write_int32(n, v) }
  pub fn write_fixed32(&mut self, n: u32, v: u32) -> Result<()> { self.write_tag(n, 5)?; self.write_raw_bytes(&v.to_le_bytes()) }
  pub fn write_fixed64(&mut self, n: u32, v: u64) -> Result<()> { self.write_tag(n, 1)?; self.write_raw_bytes(&v.to_le_bytes()) }
  pub fn write_sfixed32(&mut self, n: u32, v: i32) -> Result<()> { self.write_fixed32(n, v as u32) }
  pub fn write_sfixed64(&mut self, n: u32, v: i64) -> Result<()> { self.write_fixed64(n, v as u64) }
  pub fn write_double(&mut self, n: u32, v: f64) -> Result<()> { self.write_fixed64(n, v.to_bits()) }
  pub fn write_float(&mut self, n: u32, v: f32) -> Result<()> { self.write_fixed32(n, v.to_bits()) }
  pub fn write_repeated_packed_double(&mut self, n: u32, v: &[f64]) -> Result<()> {
    if v.is_empty() { return Ok(()); }
    self.write_tag(n, 2)?;
    self.write_raw_varint64(v.len() as u64 * 8)?;
    for x in v { self.write_raw_bytes(&x.to_bits().to_le_bytes())?; }
    Ok(())
  }
  pub fn write_repeated_packed_enum_or_unknown<E: Enum>(&mut self, n: u32, v: &[EnumOrUnknown<E>]) -> Result<()> {
    if v.is_empty() { return Ok(()); }
    self.write_tag(n, 2)?;
    self.write_raw_varint64(v.iter().map(|e| rt::compute_raw_varint64_size(i64::from(e.value()) as u64)).sum())?;
    for x in v { self.write_raw_varint64(i64::from(x.value()) as u64)?; }
    Ok(())
  }
  pub fn write_unknown_fields(&mut self, u: &UnknownFields) -> Result<()> {
    for (t, b) in &u.raw { self.write_raw_varint32(*t)?; self.write_raw_bytes(b)?; }
    Ok(())
  }
}

pub mod rt {
  use super::*;
  pub fn compute_raw_varint64_size(v: u64) -> u64 { let bits = 64 - (v | 1).leading_zeros() as u64; (bits + 6) / 7 }
  fn tag(n: u32) -> u64 { compute_raw_varint64_size(u64::from(n) << 3) }
  pub fn string_size(n: u32, s: &str) -> u64 { bytes_size(n, s.as_bytes()) }
  pub fn bytes_size(n: u32, b: &[u8]) -> u64 { tag(n) + compute_raw_varint64_size(b.len() as u64) + b.len() as u64 }
  pub fn int32_size(n: u32, v: i32) -> u64 { tag(n) + compute_raw_varint64_size(i64::from(v) as u64) }
  pub fn int64_size(n: u32, v: i64) -> u64 { tag(n) + compute_raw_varint64_size(v as u64) }
  pub fn uint32_size(n: u32, v: u32) -> u64 { tag(n) + compute_raw_varint64_size(u64::from(v)) }
  pub fn uint64_size(n: u32, v: u64) -> u64 { tag(n) + compute_raw_varint64_size(v) }
  pub fn sint64_size(n: u32, v: i64) -> u64 { tag(n) + compute_raw_varint64_size(((v << 1) ^ (v >> 63)) as u64) }
  pub fn sint32_size(n: u32, v: i32) -> u64 { sint64_size(n, i64::from(v)) }
  pub fn vec_packed_double_size(n: u32, v: &[f64]) -> u64 { if v.is_empty() { 0 } else { let l = v.len() as u64 * 8; tag(n) + compute_raw_varint64_size(l) + l } }
  pub fn vec_packed_enum_or_unknown_size<E: Enum>(n: u32, v: &[EnumOrUnknown<E>]) -> u64 {
    if v.is_empty() { return 0; }
    let l: u64 = v.iter().map(|e| compute_raw_varint64_size(i64::from(e.value()) as u64)).sum();
    tag(n) + compute_raw_varint64_size(l) + l
  }
  pub fn unknown_fields_size(u: &UnknownFields) -> u64 { u.raw.iter().map(|(t, b)| compute_raw_varint64_size(u64::from(*t)) + b.len() as u64).sum() }
  pub fn write_message_field_with_cached_size<M: Message>(n: u32, m: &M, os: &mut CodedOutputStream<'_>) -> Result<()> {
    os.write_tag(n, 2)?;
    os.write_raw_varint32(m.cached_size())?;
    m.write_to_with_cached_sizes(os)
  }
  pub fn read_singular_message_into_field<M: Message>(is: &mut CodedInputStream<'_>, f: &mut MessageField<M>) -> Result<()> { is.merge_message(f.mut_or_insert_default()) }
  pub fn skip_field_for_tag(t: u32, is: &mut CodedInputStream<'_>) -> Result<()> { read_unknown_or_skip_group(t, is, &mut UnknownFields::default()) }
  pub fn read_unknown_or_skip_group(t: u32, is: &mut CodedInputStream<'_>, u: &mut UnknownFields) -> Result<()> {
    let s = is.p;
    match t & 7 {
      0 => { is.read_raw_varint64()?; },
      1 => { is.take(8)?; },
      2 => { is.read_len()?; },
      5 => { is.take(4)?; },
      3 => {
        loop {
          let Some(x) = is.read_raw_tag_or_eof()? else { return Err(Error::Eof) };
          if x & 7 == 4 { break; }
          skip_field_for_tag(x, is)?;
        }
        return Ok(());
      },
      _ => return Err(Error::Malformed("wire type".into())),
    }
    u.raw.push((t, is.d[s .. is.p].to_vec()));
    Ok(())
  }
  pub fn read_repeated_packed_enum_or_unknown_into<E: Enum>(is: &mut CodedInputStream<'_>, v: &mut Vec<EnumOrUnknown<E>>) -> Result<()> {
    let n = is.read_raw_varint64()?;
    let old = is.push_limit(n)?;
    while is.p < is.limit { v.push(is.read_enum_or_unknown()?); }
    is.pop_limit(old);
    Ok(())
  }
  pub struct Lazy<T>(std::sync::OnceLock<T>);
  impl<T> Lazy<T> {
    pub const fn new() -> Self { Self(std::sync::OnceLock::new()) }
    pub fn get(&'static self, f: impl FnOnce() -> T) -> &'static T { self.0.get_or_init(f) }
  }
}

pub mod text_format {
  pub fn fmt<M: std::fmt::Debug>(m: &M, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{m:?}") }
  pub fn print_to_string<M: std::fmt::Debug>(m: &M) -> String { format!("{m:?}") }
}

pub mod reflect {
  #![allow(unused_variables)]
  use super::*;
  #[derive(Clone)] pub struct MessageDescriptor(());
  impl MessageDescriptor { pub fn oneof_by_name(&self, n: &str) -> Option<OneofDescriptor> { None } }
  #[derive(Clone)] pub struct OneofDescriptor(());
  #[derive(Clone)] pub struct EnumDescriptor(());
  impl EnumDescriptor { pub fn value_by_index(&self, i: usize) -> EnumValueDescriptor { EnumValueDescriptor(()) } }
  #[derive(Clone)] pub struct EnumValueDescriptor(());
  pub struct GeneratedFileDescriptor(());
  impl GeneratedFileDescriptor {
    pub fn new_generated(p: &'static descriptor::FileDescriptorProto, d: Vec<FileDescriptor>, m: Vec<GeneratedMessageDescriptorData>, e: Vec<GeneratedEnumDescriptorData>) -> Self { Self(()) }
  }
  #[derive(Clone)] pub struct FileDescriptor(());
  impl FileDescriptor {
    pub fn new_generated_2(g: &'static GeneratedFileDescriptor) -> Self { Self(()) }
    pub fn message_by_package_relative_name(&self, n: &str) -> Option<MessageDescriptor> { panic!("reflection is not available in the harness") }
    pub fn enum_by_package_relative_name(&self, n: &str) -> Option<EnumDescriptor> { panic!("reflection is not available in the harness") }
  }
  pub struct GeneratedMessageDescriptorData(());
  impl GeneratedMessageDescriptorData {
    pub fn new_2<M>(n: &'static str, f: Vec<rt::v2::FieldAccessor>, o: Vec<GeneratedOneofDescriptorData>) -> Self { Self(()) }
  }
  pub struct GeneratedOneofDescriptorData(());
  impl GeneratedOneofDescriptorData { pub fn new<O>(n: &'static str) -> Self { Self(()) } }
  pub struct GeneratedEnumDescriptorData(());
  impl GeneratedEnumDescriptorData { pub fn new<E>(n: &'static str) -> Self { Self(()) } }
  pub trait ProtobufValue { type RuntimeType; }
  pub mod rt {
    pub struct RuntimeTypeMessage<M>(std::marker::PhantomData<M>);
    pub struct RuntimeTypeEnumOrUnknown<M>(std::marker::PhantomData<M>);
    pub mod v2 {
      use super::super::super::*;
      pub struct FieldAccessor(());
      pub fn make_simpler_field_accessor<M, T>(n: &'static str, g: for<'a> fn(&'a M) -> &'a T, m: for<'a> fn(&'a mut M) -> &'a mut T) -> FieldAccessor { FieldAccessor(()) }
      pub fn make_vec_simpler_accessor<M, T>(n: &'static str, g: for<'a> fn(&'a M) -> &'a Vec<T>, m: for<'a> fn(&'a mut M) -> &'a mut Vec<T>) -> FieldAccessor { FieldAccessor(()) }
      pub fn make_option_accessor<M, T>(n: &'static str, g: for<'a> fn(&'a M) -> &'a Option<T>, m: for<'a> fn(&'a mut M) -> &'a mut Option<T>) -> FieldAccessor { FieldAccessor(()) }
      pub fn make_map_simpler_accessor_new<M, T>(n: &'static str, g: for<'a> fn(&'a M) -> &'a T, m: for<'a> fn(&'a mut M) -> &'a mut T) -> FieldAccessor { FieldAccessor(()) }
      pub fn make_message_field_accessor<M, T>(n: &'static str, g: for<'a> fn(&'a M) -> &'a MessageField<T>, m: for<'a> fn(&'a mut M) -> &'a mut MessageField<T>) -> FieldAccessor { FieldAccessor(()) }
      pub fn make_oneof_message_has_get_mut_set_accessor<M, F>(n: &'static str, h: fn(&M) -> bool, g: for<'a> fn(&'a M) -> &'a F, m: for<'a> fn(&'a mut M) -> &'a mut F, s: fn(&mut M, F)) -> FieldAccessor { FieldAccessor(()) }
      pub fn make_oneof_deref_has_get_set_simpler_accessor<M, F: std::ops::Deref>(n: &'static str, h: fn(&M) -> bool, g: for<'a> fn(&'a M) -> &'a F::Target, s: fn(&mut M, F)) -> FieldAccessor { FieldAccessor(()) }
      pub fn make_oneof_copy_has_get_set_simpler_accessors<M, F>(n: &'static str, h: fn(&M) -> bool, g: fn(&M) -> F, s: fn(&mut M, F)) -> FieldAccessor { FieldAccessor(()) }
      pub fn make_oneof_enum_accessors<M, E>(n: &'static str, g: for<'a> fn(&'a M) -> &'a Option<EnumOrUnknown<E>>, s: fn(&mut M, EnumOrUnknown<E>)) -> FieldAccessor { FieldAccessor(()) }
    }
  }
}

pub mod ext {
  pub struct ExtFieldOptional<M, T>(std::marker::PhantomData<(M, T)>);
  impl<M, T> ExtFieldOptional<M, T> { pub const fn new(_: u32, _: super::descriptor::field_descriptor_proto::Type) -> Self { Self(std::marker::PhantomData) } }
}

/// A message without fields of its own: what it reads stays in its unknown fields.
macro_rules! opaque {
  ($($n:ident { $($f:ident : $t:ty = $num:literal, $w:ident, $sz:ident, $r:ident);* })*) => {$(
    #[derive(PartialEq, Clone, Default, Debug)]
    pub struct $n { $(pub $f: $t,)* pub special_fields: $crate::SpecialFields }
    impl std::fmt::Display for $n { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{self:?}") } }
    impl $n { pub fn new() -> Self { Self::default() } }
    impl $crate::Message for $n {
      const NAME: &'static str = stringify!($n);
      fn is_initialized(&self) -> bool { true }
      fn merge_from(&mut self, is: &mut $crate::CodedInputStream<'_>) -> $crate::Result<()> {
        while let Some(tag) = is.read_raw_tag_or_eof()? {
          match tag >> 3 {
            $($num => self.$f = is.$r()?,)*
            _ => $crate::rt::read_unknown_or_skip_group(tag, is, self.special_fields.mut_unknown_fields())?,
          }
        }
        Ok(())
      }
      fn compute_size(&self) -> u64 {
        #[allow(unused_mut)]
        let mut n = $crate::rt::unknown_fields_size(self.special_fields.unknown_fields());
        $(if self.$f != Default::default() { n += $crate::rt::$sz($num, self.$f.clone()); })*
        self.special_fields.cached_size().set(n as u32);
        n
      }
      fn write_to_with_cached_sizes(&self, os: &mut $crate::CodedOutputStream<'_>) -> $crate::Result<()> {
        $(if self.$f != Default::default() { os.$w($num, self.$f.clone())?; })*
        os.write_unknown_fields(self.special_fields.unknown_fields())
      }
      fn special_fields(&self) -> &$crate::SpecialFields { &self.special_fields }
      fn mut_special_fields(&mut self) -> &mut $crate::SpecialFields { &mut self.special_fields }
      fn new() -> Self { Self::default() }
      fn clear(&mut self) { *self = Self::default() }
      fn default_instance() -> &'static Self { static I: std::sync::OnceLock<$n> = std::sync::OnceLock::new(); I.get_or_init(Default::default) }
    }
    impl $crate::MessageFull for $n { fn descriptor() -> $crate::reflect::MessageDescriptor { panic!("reflection is not available in the harness") } }
    impl $crate::reflect::ProtobufValue for $n { type RuntimeType = $crate::reflect::rt::RuntimeTypeMessage<Self>; }
    impl<'a> Default for &'a $n { fn default() -> &'a $n { <$n as $crate::Message>::default_instance() } }
  )*};
}
pub mod descriptor {
  opaque! { FileDescriptorProto {} FileOptions {} MessageOptions {} FieldOptions {} OneofOptions {} EnumOptions {} EnumValueOptions {} MethodOptions {} }
  pub mod field_descriptor_proto {
    #[allow(non_camel_case_types)]
    pub enum Type { TYPE_BOOL, TYPE_STRING, TYPE_MESSAGE }
  }
  pub fn file_descriptor() -> &'static super::reflect::FileDescriptor { panic!("reflection is not available in the harness") }
}
pub mod well_known_types {
  pub mod timestamp {
    opaque! { Timestamp { seconds: i64 = 1, write_int64, int64_size, read_int64; nanos: i32 = 2, write_int32, int32_size, read_int32 } }
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor { panic!("reflection is not available in the harness") }
  }
  pub mod duration {
    opaque! { Duration { seconds: i64 = 1, write_int64, int64_size, read_int64; nanos: i32 = 2, write_int32, int32_size, read_int32 } }
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor { panic!("reflection is not available in the harness") }
  }
  impl From<std::time::Duration> for duration::Duration {
    fn from(d: std::time::Duration) -> Self { Self { seconds: d.as_secs() as i64, nanos: d.subsec_nanos() as i32, ..Default::default() } }
  }
  impl From<duration::Duration> for std::time::Duration {
    fn from(d: duration::Duration) -> Self { Self::new(d.seconds as u64, d.nanos as u32) }
  }
  pub mod any {
    opaque! { Any {} }
    pub fn file_descriptor() -> &'static crate::reflect::FileDescriptor { panic!("reflection is not available in the harness") }
  }
}

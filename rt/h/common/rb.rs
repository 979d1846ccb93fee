// A model of the ring buffer driven by the addresses the real buffer hands out: what is unread, what
// is reserved, what is being read. Included by the c01, c02 and c03 harnesses.
use bd_buffer::buffer::{AllowOverwrite, BlockWhenReservingIntoConcurrentRead, NonVolatileFileHeader, NonVolatileRingBuffer, PerRecordCrc32Check, RingBuffer, RingBufferConsumer, RingBufferCursorConsumer, RingBufferProducer, RingBufferStats, VolatileRingBuffer};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::VecDeque;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

// The address of the last allocation of the watched size: where the volatile buffer's memory is.
pub static WATCH: AtomicUsize = AtomicUsize::new(0);
pub static FOUND: AtomicUsize = AtomicUsize::new(0);
pub struct Watcher;
unsafe impl GlobalAlloc for Watcher {
  unsafe fn alloc(&self, l: Layout) -> *mut u8 {
    let p = System.alloc(l);
    if l.align() == 1 && l.size() == WATCH.load(Ordering::Relaxed) && l.size() != 0 && FOUND.load(Ordering::Relaxed) == 0 { FOUND.store(p as usize, Ordering::Relaxed); }
    p
  }
  unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
}
#[global_allocator]
static A: Watcher = Watcher;

pub const HEADER: usize = std::mem::size_of::<NonVolatileFileHeader>();

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { Volatile, File { overwrite: bool, crc: bool, cursor: bool } }
impl Kind {
  pub fn extra(self) -> usize { if matches!(self, Kind::File { crc: true, .. }) { 8 } else { 4 } }
  pub fn overwrite(self) -> bool { !matches!(self, Kind::File { overwrite: false, .. }) }
  pub fn cursor(self) -> bool { matches!(self, Kind::File { cursor: true, .. }) }
}

// start: offset in the buffer's memory of the record's first byte (prefix included); size likewise.
#[derive(Clone, Debug)]
pub struct Rec { pub start: usize, pub size: usize, pub data: Vec<u8>, pub committed: bool, pub who: usize }
impl Rec { pub fn hits(&self, a: usize, b: usize) -> bool { a < b && self.start < b && a < self.start + self.size } }

pub enum Cons { None, Plain(Box<dyn RingBufferConsumer>), Cursor(Box<dyn RingBufferCursorConsumer>) }
pub struct Rb {
  pub kind: Kind,
  pub len: usize,
  pub base: usize,
  pub buf: Arc<dyn RingBuffer>,
  pub producers: Vec<Box<dyn RingBufferProducer>>,
  pub open: Vec<Option<(usize, usize)>>, // address and length of the region each producer holds
  pub cons: Cons,
  pub unread: VecDeque<Rec>,          // committed, oldest first
  pub reading: VecDeque<(usize, usize)>, // regions handed to the reader: the first ones of unread
  pub res: VecDeque<Rec>,             // reserved (or committed behind an uncommitted one), oldest first
  pub nws: usize,
  pub dropped: usize,
  pub refused: usize,
  pub delivered: usize,
}

pub fn mapping_of(path: &str) -> Option<usize> {
  let m = std::fs::read_to_string("/proc/self/maps").ok()?;
  m.lines().find(|l| l.ends_with(path)).and_then(|l| usize::from_str_radix(l.split('-').next()?, 16).ok())
}

pub fn open_file(path: &std::path::Path, kind: Kind, len: usize) -> Result<Arc<NonVolatileRingBuffer>, bd_buffer::Error> {
  let Kind::File { overwrite, crc, .. } = kind else { unreachable!() };
  NonVolatileRingBuffer::new("t".into(), path, (len + HEADER) as u32, if overwrite { AllowOverwrite::Yes } else { AllowOverwrite::Block }, BlockWhenReservingIntoConcurrentRead::No,
    if crc { PerRecordCrc32Check::Yes } else { PerRecordCrc32Check::No }, Arc::new(RingBufferStats::default()))
}

impl Rb {
  pub fn new(kind: Kind, len: usize, producers: usize, path: &std::path::Path) -> Result<Self, String> {
    let (buf, base): (Arc<dyn RingBuffer>, usize) = match kind {
      Kind::Volatile => {
        FOUND.store(0, Ordering::Relaxed);
        WATCH.store(len, Ordering::Relaxed);
        let b = VolatileRingBuffer::new("t".into(), len as u32, Arc::new(RingBufferStats::default()));
        WATCH.store(0, Ordering::Relaxed);
        (b, FOUND.load(Ordering::Relaxed))
      },
      Kind::File { .. } => {
        let b = open_file(path, kind, len).map_err(|e| format!("open: {e}"))?;
        (b, mapping_of(path.to_str().unwrap()).map_or(0, |p| p + HEADER))
      },
    };
    let mut s = Self { kind, len, base, buf, producers: vec![], open: vec![], cons: Cons::None, unread: VecDeque::new(), reading: VecDeque::new(), res: VecDeque::new(), nws: 0, dropped: 0, refused: 0, delivered: 0 };
    let n = if kind == Kind::Volatile { producers } else { 1 };
    for _ in 0 .. n {
      s.producers.push(s.buf.clone().register_producer().map_err(|e| format!("producer: {e}"))?);
      s.open.push(None);
    }
    s.register_consumer()?;
    Ok(s)
  }
  pub fn register_consumer(&mut self) -> Result<(), String> {
    self.cons = if self.kind.cursor() {
      Cons::Cursor(self.buf.clone().register_cursor_consumer().map_err(|e| format!("consumer: {e}"))?)
    } else {
      Cons::Plain(self.buf.clone().register_consumer().map_err(|e| format!("consumer: {e}"))?)
    };
    Ok(())
  }
  // Where the next reservation of n bytes goes, the gap a wrap leaves, and what keeps it from being made.
  pub fn place(&self, n: usize) -> Result<(usize, usize), &'static str> {
    let size = n + self.kind.extra();
    if n == 0 || size > self.len { return Err("size"); }
    let (at, gap) = if self.nws + size <= self.len { (self.nws, self.len) } else { (0, self.nws) };
    let hit = |r: &Rec| r.hits(at, at + size) || r.hits(gap, self.len);
    if self.unread.iter().take(self.reading.len()).any(hit) { return Err("being read"); }
    if self.res.iter().any(hit) { return Err("reserved"); }
    if !self.kind.overwrite() && self.unread.iter().any(hit) { return Err("unread"); }
    Ok((at, gap))
  }
  // Reserve n bytes for producer i and put `data` there. Regions: C01. Refusals and what is dropped: C02.
  pub fn reserve(&mut self, i: usize, n: u32, mut fill: impl FnMut(usize) -> Vec<u8>, regions: bool, delivery: bool) -> Result<bool, String> {
    let expect = if self.open[i].is_some() { Err("already reserved") } else { self.place(n as usize) };
    let got = match self.producers[i].reserve(n, false) {
      Ok(s) => Ok((s.as_mut_ptr() as usize, s.len())),
      Err(e) => Err(e.to_string()),
    };
    let (p, l) = match got {
      Err(e) => {
        self.refused += 1;
        if let (Ok((at, _)), true) = (expect, delivery) { return Err(format!("a reservation of {n} bytes that fits at {at} was refused: {e}")); }
        return Ok(false);
      },
      Ok(x) => x,
    };
    if self.base == 0 { self.base = p - self.kind.extra(); }
    if l != n as usize { return if regions { Err(format!("reserved {n} bytes, got a region of {l}")) } else { Ok(false) }; }
    let lo = p.wrapping_sub(self.kind.extra());
    if lo < self.base || p + l > self.base + self.len { return Err(format!("the region {lo:#x}..{:#x} is outside the buffer's memory {:#x}..{:#x}", p + l, self.base, self.base + self.len)); }
    let at = lo - self.base;
    let size = l + self.kind.extra();
    if let Some(r) = self.res.iter().find(|r| r.hits(at, at + size)) { return Err(format!("the region {at}..{} shares bytes with the region {}..{} another producer holds", at + size, r.start, r.start + r.size)); }
    if let Some(r) = self.unread.iter().take(self.reading.len()).find(|r| r.hits(at, at + size)) { return Err(format!("the region {at}..{} shares bytes with the record {}..{} being read", at + size, r.start, r.start + r.size)); }
    if let Err(e) = expect { if delivery || self.open[i].is_some() { return Err(format!("a reservation of {n} bytes was granted at {at} although it cannot be: {e}")); } }
    let gap = if at < self.nws { self.nws } else { self.len };
    while self.unread.front().map_or(false, |r| r.hits(at, at + size) || r.hits(gap, self.len)) {
      if !self.kind.overwrite() && delivery { return Err(format!("a reservation at {at}..{} overwrites an unread record of a buffer that does not overwrite", at + size)); }
      self.unread.pop_front();
      self.dropped += 1;
    }
    if let Some(r) = self.unread.iter().find(|r| r.hits(at, at + size)) { return Err(format!("the region {at}..{} covers the unread record {}..{} which is not the oldest", at + size, r.start, r.start + r.size)); }
    self.nws = at + size;
    let data = fill(l);
    unsafe { std::ptr::copy_nonoverlapping(data.as_ptr(), p as *mut u8, l) };
    self.open[i] = Some((p, l));
    self.res.push_back(Rec { start: at, size, data, committed: false, who: i });
    Ok(true)
  }
  pub fn check_regions(&self) -> Result<(), String> {
    for (i, o) in self.open.iter().enumerate() {
      if let Some((p, l)) = o {
        let now = unsafe { std::slice::from_raw_parts(*p as *const u8, *l) };
        let r = self.res.iter().find(|r| r.who == i && !r.committed).ok_or("model")?;
        if now != &r.data[..] { return Err(format!("the bytes producer {i} holds at {}..{} changed under it", r.start, r.start + r.size)); }
      }
    }
    for ((p, l), r) in self.reading.iter().zip(&self.unread) {
      let now = unsafe { std::slice::from_raw_parts(*p as *const u8, *l) };
      if now != &r.data[..] { return Err(format!("the record being read at {}..{} changed under its reader", r.start, r.start + r.size)); }
    }
    Ok(())
  }
  pub fn commit(&mut self, i: usize) -> Result<(), String> {
    let held = self.open[i].is_some();
    match (self.producers[i].commit(), held) {
      (Ok(()), true) => {},
      (Err(_), false) => return Ok(()),
      (Ok(()), false) => return Err("a commit without a reservation succeeded".into()),
      (Err(e), true) => return Err(format!("a commit failed: {e}")),
    }
    self.open[i] = None;
    self.res.iter_mut().filter(|r| r.who == i).for_each(|r| r.committed = true);
    while self.res.front().map_or(false, |r| r.committed) { let r = self.res.pop_front().unwrap(); self.unread.push_back(r); }
    Ok(())
  }
  pub fn start_read(&mut self, delivery: bool) -> Result<bool, String> {
    let next = self.unread.get(self.reading.len());
    let twice = !self.kind.cursor() && !self.reading.is_empty();
    let got = match &mut self.cons {
      Cons::Plain(c) => c.start_read(false).map(|s| (s.as_ptr() as usize, s.len(), s.to_vec())),
      Cons::Cursor(c) => c.start_read(false).map(|s| (s.as_ptr() as usize, s.len(), s.to_vec())),
      Cons::None => return Ok(false),
    };
    match (got, next, twice) {
      (Err(_), _, true) => Ok(false),
      (Ok(_), _, true) => Err("a second read was started before the first was finished".into()),
      (Err(_), None, _) => Ok(false),
      (Err(e), Some(r), _) => if delivery { Err(format!("the unread record {}..{} was not delivered: {e}", r.start, r.start + r.size)) } else { Ok(false) },
      (Ok((_, _, d)), None, _) => Err(format!("nothing is unread but a record was delivered: {d:?}")),
      (Ok((p, l, d)), Some(r), _) => {
        if delivery && d != r.data { return Err(format!("the reader got {d:?}, expected {:?} (the record at {}..{})", r.data, r.start, r.start + r.size)); }
        if p < self.base || p + l > self.base + self.len { return Err(format!("the reader got {p:#x}..{:#x}, outside the buffer's memory", p + l)); }
        self.reading.push_back((p, l));
        self.delivered += 1;
        Ok(true)
      },
    }
  }
  pub fn finish_read(&mut self) -> Result<bool, String> {
    let r = match &mut self.cons {
      Cons::Plain(c) => c.finish_read(),
      Cons::Cursor(c) => c.advance_read_pointer(),
      Cons::None => return Ok(false),
    };
    match (r, self.reading.is_empty()) {
      (Ok(()), false) => { self.reading.pop_front(); self.unread.pop_front(); Ok(true) },
      (Err(_), true) => Ok(false),
      (Ok(()), true) => Err("a read that was not started was finished".into()),
      (Err(e), false) => Err(format!("finishing a read failed: {e}")),
    }
  }
  // Commit everything, then read everything.
  pub fn drain(&mut self, delivery: bool) -> Result<(), String> {
    for i in 0 .. self.producers.len() { if self.open[i].is_some() { self.commit(i)?; } }
    let mut n = 0;
    while !self.unread.is_empty() {
      if self.reading.is_empty() && !self.start_read(delivery)? { return Ok(()); }
      self.finish_read()?;
      n += 1;
      if n > 100_000 { return Err("does not drain".into()); }
    }
    self.start_read(delivery)?;
    Ok(())
  }
}

pub struct Opt { pub regions: bool, pub delivery: bool }
// A random history; `log` records it.
pub fn history(seed: u64, opt: &Opt, log: &std::cell::RefCell<String>, path: &std::path::Path) -> Result<Rb, String> {
  use std::fmt::Write;
  let mut r = hx::Rng::new(seed);
  let kind = match seed % 8 {
    0 ..= 4 => Kind::Volatile,
    5 => Kind::File { overwrite: true, crc: r.chance(1, 2), cursor: false },
    6 => Kind::File { overwrite: false, crc: r.chance(1, 2), cursor: false },
    _ => Kind::File { overwrite: false, crc: r.chance(1, 2), cursor: true },
  };
  let len = match r.us(4) { 0 => 5 + r.us(12), 1 => 16 + r.us(32), 2 => 40 + r.us(80), _ => 12 + r.us(300) };
  let producers = 1 + r.us(4);
  let _ = std::fs::remove_file(path);
  let mut b = Rb::new(kind, len, producers, path)?;
  let _ = write!(log.borrow_mut(), "{kind:?} len {len} producers {}: ", b.producers.len());
  let big = 1 + r.us(len + 2);
  let mut lock = None;
  let most = if r.chance(1, 6) { 300 } else { 50 };
  for _ in 0 .. 12 + r.us(most) {
    let i = r.us(b.producers.len());
    match r.us(12) {
      0 ..= 3 if b.open[i].is_none() || r.chance(1, 10) => {
        let n = match r.us(12) { 0 => 0, 1 => (len - 4.min(len)) as u32, 2 => *r.pick(&[u32::MAX, u32::MAX - 3, u32::MAX - 4, u32::MAX - 7, u32::MAX - 8, 1 << 31]), 3 => (len as i64 - b.nws as i64 - kind.extra() as i64 + r.range(-1, 1)).max(1) as u32, 4 | 5 => 1, _ => 1 + r.us(big) as u32 };
        let _ = write!(log.borrow_mut(), "r{i}:{n} ");
        let d = r.next();
        if lock.is_some() {
          if b.producers[i].reserve(n, false).is_ok() { return if opt.delivery { Err("a locked buffer accepted a reservation".into()) } else { Ok(b) }; }
        } else {
          b.reserve(i, n, |l| hx::Rng::new(d).bytes(l), opt.regions, opt.delivery)?;
        }
      },
      0 ..= 6 => { let _ = write!(log.borrow_mut(), "c{i} "); b.check_regions()?; b.commit(i)?; },
      7 | 8 => { let _ = write!(log.borrow_mut(), "R "); b.start_read(opt.delivery)?; },
      9 | 10 => { let _ = write!(log.borrow_mut(), "F "); b.check_regions()?; b.finish_read()?; },
      _ => match r.us(6) {
        0 if lock.is_none() => { let _ = write!(log.borrow_mut(), "L "); lock = Some(b.buf.clone().lock()); },
        0 | 1 => { let _ = write!(log.borrow_mut(), "U "); lock = None; },
        2 if b.reading.is_empty() && kind == Kind::Volatile => {
          let _ = write!(log.borrow_mut(), "N ");
          b.cons = Cons::None;
          b.register_consumer()?;
        },
        3 => {
          let _ = write!(log.borrow_mut(), "X ");
          if b.buf.clone().register_consumer().is_ok() { return Err("a second consumer was registered".into()); }
          if kind != Kind::Volatile && b.buf.clone().register_producer().is_ok() { return Err("a second producer was registered".into()); }
        },
        4 if kind == Kind::Volatile && b.producers.len() < 6 => {
          let _ = write!(log.borrow_mut(), "P ");
          b.producers.push(b.buf.clone().register_producer().map_err(|e| e.to_string())?);
          b.open.push(None);
        },
        _ => {},
      },
    }
    b.check_regions()?;
  }
  Ok(b)
}

//! deps: bd-buffer
//! The real file buffer closed and reopened at random points of random histories, with nothing damaged
//! (what is delivered is exactly what was committed and unread) and with bytes of the file damaged while
//! it was closed or open (opening fails, or only committed records come out, in order, at most once, and
//! damage that leaves the sizes alone costs only the records it hit).
include!("../common/rb.rs");
use hx::{ck, Hx, Rng};
use std::cell::RefCell;
use std::fmt::Write;
use std::path::Path;

#[derive(Clone, Debug, PartialEq)]
struct Live { id: u32, data: Vec<u8>, at: usize }

struct S<'a> {
  kind: Kind,
  len: usize,
  path: &'a Path,
  buf: Option<Arc<NonVolatileRingBuffer>>,
  prod: Option<Box<dyn RingBufferProducer>>,
  cons: Cons,
  base: usize,
  open: Option<(Live, bool)>,
  // Committed and not known to be gone, oldest first; the first `out` were handed to the reader.
  live: VecDeque<Live>,
  out: usize,
  next_id: u32,
  log: &'a RefCell<String>,
}
impl S<'_> {
  // Ok(false): refused for data loss.
  fn reopen(&mut self) -> Result<bool, String> {
    self.prod = None;
    self.cons = Cons::None;
    self.buf = None;
    self.open = None;
    let b = match open_file(self.path, self.kind, self.len) {
      Ok(b) => b,
      Err(bd_buffer::Error::AbslStatus(bd_buffer::AbslCode::DataLoss, _)) => return Ok(false),
      Err(e) => return Err(format!("open: {e}")),
    };
    self.base = mapping_of(self.path.to_str().unwrap()).map_or(0, |p| p + HEADER);
    self.prod = Some(b.clone().register_producer().map_err(|e| e.to_string())?);
    self.cons = if self.kind.cursor() { Cons::Cursor(b.clone().register_cursor_consumer().map_err(|e| e.to_string())?) } else { Cons::Plain(b.clone().register_consumer().map_err(|e| e.to_string())?) };
    self.buf = Some(b);
    Ok(true)
  }
  fn inside(&self, p: usize, l: usize) -> Result<(), String> {
    ck!(self.base == 0 || (p >= self.base + self.kind.extra() && p + l <= self.base + self.len), "{p:#x}..{:#x} is outside the file's memory {:#x}..{:#x}", p + l, self.base, self.base + self.len);
    Ok(())
  }
  fn reserve(&mut self, n: u32, r: &mut Rng) -> Result<Option<usize>, String> {
    let id = self.next_id;
    let Ok(s) = self.prod.as_mut().unwrap().reserve(n, false) else { return Ok(None) };
    let (p, l) = (s.as_mut_ptr() as usize, s.len());
    ck!(l == n as usize, "reserved {n}, got {l}");
    let mut d = r.bytes(l);
    d[.. 4].copy_from_slice(&id.to_le_bytes());
    s.copy_from_slice(&d);
    self.inside(p, l)?;
    self.next_id += 1;
    let at = (p - self.base) - self.kind.extra();
    self.open = Some((Live { id, data: d, at }, false));
    Ok(Some(at))
  }
  fn commit(&mut self) -> Result<(), String> {
    let Some((l, _)) = self.open.take() else { return Ok(()) };
    self.prod.as_mut().unwrap().commit().map_err(|e| format!("commit: {e}"))?;
    self.live.push_back(l);
    Ok(())
  }
  fn start(&mut self) -> Result<Result<Vec<u8>, String>, String> {
    let g = match &mut self.cons {
      Cons::Plain(c) => c.start_read(false).map(|s| (s.as_ptr() as usize, s.to_vec())),
      Cons::Cursor(c) => c.start_read(false).map(|s| (s.as_ptr() as usize, s.to_vec())),
      Cons::None => return Ok(Err("closed".into())),
    };
    match g {
      Ok((p, d)) => { self.inside(p, d.len())?; Ok(Ok(d)) },
      Err(e) => Ok(Err(e.to_string())),
    }
  }
  fn finish(&mut self) -> Result<(), String> {
    match &mut self.cons {
      Cons::Plain(c) => c.finish_read().map_err(|e| format!("finish: {e}")),
      Cons::Cursor(c) => c.advance_read_pointer().map_err(|e| format!("advance: {e}")),
      Cons::None => Ok(()),
    }
  }
}

fn kind_of(seed: u64) -> Kind {
  match seed % 4 {
    0 | 1 => Kind::File { overwrite: true, crc: true, cursor: false },
    2 => Kind::File { overwrite: false, crc: true, cursor: false },
    _ => Kind::File { overwrite: false, crc: true, cursor: true },
  }
}

// Nothing damaged.
fn clean(seed: u64, log: &RefCell<String>, path: &Path) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let kind = kind_of(seed);
  let len = 30 + r.us(200);
  let _ = std::fs::remove_file(path);
  let mut s = S { kind, len, path, buf: None, prod: None, cons: Cons::None, base: 0, open: None, live: VecDeque::new(), out: 0, next_id: 1, log };
  let _ = write!(log.borrow_mut(), "{kind:?} len {len}: ");
  ck!(s.reopen()?, "a new file does not open");
  let big = 5 + r.us(len);
  let mut nws = 0;
  for _ in 0 .. 10 + r.us(50) {
    match r.us(12) {
      0 ..= 3 if s.open.is_none() => {
        let n = 5 + r.us(big);
        let _ = write!(s.log.borrow_mut(), "r{n} ");
        if let Some(at) = s.reserve(n as u32, &mut r)? {
          let size = n + 8;
          let gap = if at < nws { nws } else { len };
          while s.live.front().map_or(false, |l| (l.at < at + size && at < l.at + l.data.len() + 8) || l.at + l.data.len() + 8 > gap) {
            ck!(s.out == 0 && kind.overwrite(), "a record that may not go is overwritten");
            s.live.pop_front();
          }
          nws = at + size;
        }
      },
      0 ..= 6 => { let _ = write!(s.log.borrow_mut(), "c "); s.commit()?; },
      7 | 8 => {
        if s.out > 0 && !kind.cursor() { continue; }
        let _ = write!(s.log.borrow_mut(), "R ");
        match (s.start()?, s.live.get(s.out)) {
          (Ok(d), Some(l)) => { ck!(d == l.data, "delivered {d:?}, expected {:?}", l.data); s.out += 1; },
          (Err(_), None) => {},
          (Ok(d), None) => return Err(format!("nothing is unread, delivered {d:?}")),
          (Err(e), Some(l)) => return Err(format!("record {} was not delivered: {e}", l.id)),
        }
      },
      9 => if s.out > 0 { let _ = write!(s.log.borrow_mut(), "F "); s.finish()?; s.live.pop_front(); s.out -= 1; },
      _ => {
        let _ = write!(s.log.borrow_mut(), "reopen ");
        // A record that was being read has been delivered; a cursor delivers it again.
        if s.out > 0 && !kind.cursor() { s.live.pop_front(); }
        s.out = 0;
        ck!(s.reopen()?, "an undamaged file does not open");
      },
    }
  }
  if s.out > 0 && !kind.cursor() { s.live.pop_front(); }
  let _ = write!(s.log.borrow_mut(), "end");
  ck!(s.reopen()?, "an undamaged file does not open");
  while let Some(l) = s.live.pop_front() {
    let d = s.start()?.map_err(|e| format!("record {} was not delivered after reopening: {e}", l.id))?;
    ck!(d == l.data, "after reopening: delivered {d:?}, expected {:?}", l.data);
    s.finish()?;
  }
  if let Ok(d) = s.start()? { return Err(format!("nothing is unread, delivered {d:?}")); }
  Ok(())
}

// A file with some unread records, then damaged.
fn damaged(seed: u64, log: &RefCell<String>, path: &Path) -> Result<(), String> {
  let mut r = Rng::new(seed);
  let kind = kind_of(seed);
  let len = 40 + r.us(160);
  let _ = std::fs::remove_file(path);
  let mut s = S { kind, len, path, buf: None, prod: None, cons: Cons::None, base: 0, open: None, live: VecDeque::new(), out: 0, next_id: 1, log };
  let _ = write!(log.borrow_mut(), "{kind:?} len {len}: ");
  ck!(s.reopen()?, "a new file does not open");
  let big = 5 + r.us(len / 2);
  let mut nws = 0;
  let same = r.chance(1, 3);
  let marks: RefCell<Vec<usize>> = RefCell::new(vec![0]);
  // Records that were reserved and never committed.
  let never: RefCell<Vec<Vec<u8>>> = RefCell::new(vec![]);
  let mut gone: Vec<Vec<u8>> = vec![];
  let mut put = |s: &mut S, r: &mut Rng, gone: &mut Vec<Vec<u8>>, exact: bool| -> Result<(), String> {
    let n = if same { big } else { 5 + r.us(big) };
    let _ = write!(s.log.borrow_mut(), "w{n} ");
    if let Some(at) = s.reserve(n as u32, r)? {
      let size = n + 8;
      marks.borrow_mut().extend([at, at + size]);
      let gap = if at < nws { nws } else { len };
      while exact && s.live.front().map_or(false, |l| (l.at < at + size && at < l.at + l.data.len() + 8) || l.at + l.data.len() + 8 > gap) { gone.push(s.live.pop_front().unwrap().data); }
      nws = at + size;
      if r.chance(1, 12) { let _ = write!(s.log.borrow_mut(), "(abandoned) "); never.borrow_mut().push(s.open.take().unwrap().0.data); s.prod = None; s.prod = Some(s.buf.as_ref().unwrap().clone().register_producer().map_err(|e| e.to_string())?); } else { s.commit()?; }
    }
    Ok(())
  };
  for _ in 0 .. 3 + r.us(25) {
    if r.chance(3, 4) || s.live.is_empty() { put(&mut s, &mut r, &mut gone, true)?; } else {
      let d = s.start()?.map_err(|e| format!("before the damage: {e}"))?;
      let l = s.live.pop_front().unwrap();
      ck!(d == l.data, "before the damage: delivered {d:?}, expected {:?}", l.data);
      s.finish()?;
      gone.push(l.data);
    }
  }
  // Damage.
  let live = r.chance(1, 3);
  if !live { s.prod = None; s.cons = Cons::None; s.buf = None; }
  let mut hit = vec![];
  {
    use std::os::unix::fs::FileExt;
    let f = std::fs::OpenOptions::new().read(true).write(true).open(path).map_err(|e| e.to_string())?;
    // A size that leads exactly to where another record begins or began.
    if !s.live.is_empty() && r.chance(1, 4) {
      let l = &s.live[r.us(s.live.len())];
      let m = marks.borrow();
      let to = m[r.us(m.len())];
      let v = if to > l.at + 8 { (to - l.at - 8) as u32 } else { (len - l.at - 8) as u32 };
      for (i, nb) in v.to_ne_bytes().into_iter().enumerate() {
        let at = HEADER + l.at + 4 + i;
        let mut b = [0];
        f.read_at(&mut b, at as u64).map_err(|e| e.to_string())?;
        if nb == b[0] { continue; }
        f.write_at(&[nb], at as u64).map_err(|e| e.to_string())?;
        let _ = write!(s.log.borrow_mut(), "damage@{at}:{}->{nb} ", b[0]);
        hit.push(at);
      }
    }
    let n = if !hit.is_empty() && r.chance(1, 2) { 0 } else if r.chance(2, 3) { 1 } else { 2 + r.us(6) };
    for _ in 0 .. n {
      let at = if live || r.chance(3, 4) { HEADER + r.us(len) } else { r.us(HEADER) };
      let at = if r.chance(1, 2) && !s.live.is_empty() { let l = r.us(s.live.len()); HEADER + s.live[l].at + r.us(9) } else { at };
      let mut b = [0];
      f.read_at(&mut b, at as u64).map_err(|e| e.to_string())?;
      let nb = match r.us(4) { 0 => b[0] ^ (1 << r.us(8)), 1 => 0, 2 => 0xff, _ => r.next() as u8 };
      if nb == b[0] || hit.contains(&at) { continue; }
      f.write_at(&[nb], at as u64).map_err(|e| e.to_string())?;
      let _ = write!(s.log.borrow_mut(), "damage@{at}:{}->{nb} ", b[0]);
      hit.push(at);
    }
  }
  if !live && !s.reopen()? {
    ck!(!hit.is_empty(), "an undamaged file does not open");
    let _ = write!(s.log.borrow_mut(), "refused ");
    // Recreating it, as the buffer manager does.
    std::fs::remove_file(path).map_err(|e| e.to_string())?;
    ck!(s.reopen()?, "a new file does not open");
    if let Ok(d) = s.start()? { return Err(format!("a new file delivered {d:?}")); }
    return Ok(());
  }
  // Which records the damage hit; whether it can have moved the reader (a size or the header).
  let header = hit.iter().any(|h| *h < HEADER);
  let rec = |l: &Live| hit.iter().any(|h| *h >= HEADER + l.at && *h < HEADER + l.at + l.data.len() + 8);
  let size = |l: &Live| hit.iter().any(|h| *h >= HEADER + l.at + 4 && *h < HEADER + l.at + 8);
  let mut stale = header;
  // Sizes of abandoned records lie on the reader's way too.
  let abandoned = s.log.borrow().contains("(abandoned)");
  let known: Vec<Live> = s.live.iter().cloned().collect();
  let sure = !header && !(abandoned && hit.iter().any(|h| !known.iter().any(|l| *h >= HEADER + l.at && *h < HEADER + l.at + l.data.len() + 8)));
  let hops = kind.cursor() && r.chance(1, 2);
  let mut pending: VecDeque<()> = VecDeque::new();
  let mut i = 0;
  loop {
    // More writes in between do not matter to what is unread of a buffer that blocks.
    if !kind.overwrite() && r.chance(1, 4) { put(&mut s, &mut r, &mut gone, false)?; }
    let d = match s.start()? { Ok(d) => d, Err(_) => break };
    let _ = write!(s.log.borrow_mut(), "R ");
    ck!(!never.borrow().contains(&d), "a record that was never committed was delivered: {d:?}");
    ck!(!gone.contains(&d), "a record that was read or overwritten came back: {d:?}");
    let Some(k) = s.live.iter().position(|l| l.data == d) else { return Err(format!("a record that was never committed was delivered: {d:?}")) };
    for l in s.live.drain(.. k) {
      if sure && !stale { ck!(rec(&l), "record {} at {} was lost although the damage did not hit it", l.id, l.at); }
      if rec(&l) && size(&l) { stale = true; }
      gone.push(l.data);
    }
    let l = s.live.pop_front().unwrap();
    ck!(!rec(&l) || l.id > known.last().map_or(0, |l| l.id), "the damaged record {} was delivered as it was written", l.id);
    gone.push(l.data);
    if hops && pending.len() < 3 && r.chance(1, 2) { pending.push_back(()); } else { let _ = write!(s.log.borrow_mut(), "F "); s.finish()?; }
    i += 1;
    ck!(i < 1000, "does not end");
  }
  for l in &s.live {
    if sure && !stale { ck!(rec(l), "record {} at {} was not delivered although the damage did not hit it", l.id, l.at); }
    if rec(l) && size(l) { stale = true; }
  }
  let _ = write!(s.log.borrow_mut(), "drained ");
  for _ in 0 .. pending.len() { s.finish()?; }
  for l in s.live.drain(..) { gone.push(l.data); }
  // It works on: a record written now is the next one delivered, now and after reopening.
  if r.chance(1, 2) {
    let _ = write!(s.log.borrow_mut(), "reopen ");
    ck!(s.reopen()?, "the file does not open after its damage was handled");
    if let Ok(d) = s.start()? { return Err(format!("a record came back after reopening: {d:?}")); }
  }
  let _ = write!(s.log.borrow_mut(), "put ");
  let mut put_ok = false;
  for _ in 0 .. 3 {
    if s.reserve(5, &mut r)?.is_some() { s.commit()?; put_ok = true; break; }
  }
  ck!(put_ok, "nothing can be written after the damage was handled");
  if r.chance(1, 2) { let _ = write!(s.log.borrow_mut(), "reopen "); ck!(s.reopen()?, "the file does not open after its damage was handled"); }
  match s.start()? {
    Ok(d) => { ck!(d == s.live[0].data, "after the damage: delivered {d:?}, expected {:?}", s.live[0].data); s.finish()?; },
    Err(e) => return Err(format!("after the damage: not delivered: {e}")),
  }
  if let Ok(d) = s.start()? { return Err(format!("after the damage: delivered {d:?}")); }
  Ok(())
}

// Every byte of the file of one history, one at a time.
fn main() {
  let mut h = Hx::new("file buffers of 30 to 230 bytes with checksums, plain and cursor consumers, overwriting and not: random histories with reopenings at every point (reservations and reads left open too), and files with one to seven bytes damaged anywhere, closed or open; distinct histories counted");
  let path = hx::scratch().join("c03.rb");
  for i in 0 .. h.n(20_000, 300_000) {
    let seed = h.seed * 67_867_967 + i;
    let log = RefCell::new(String::new());
    h.case(true, || format!("clean seed {seed} {}", log.borrow()), || clean(seed, &log, &path));
    let log = RefCell::new(String::new());
    h.case(true, || format!("damaged seed {seed} {}", log.borrow()), || damaged(seed, &log, &path));
  }
  h.finish()
}

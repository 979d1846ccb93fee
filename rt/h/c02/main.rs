//! deps: bd-buffer
//! The histories of c01 with every byte delivered compared with a model (what is unread is what was
//! committed, in the order of the reservations, less the oldest ones the new regions and wrap gaps cover).
include!("../common/rb.rs");
use bd_buffer::AggregateRingBuffer;
use hx::Hx;
// The buffer the SDK uses: producers write to memory, a thread moves records to the file, a consumer
// reads there. flush() waits for the thread, so that each step can be compared with the model.
fn aggregate(seed: u64, log: &std::cell::RefCell<String>) -> Result<(), String> {
  use std::fmt::Write;
  let mut r = hx::Rng::new(seed);
  let (overwrite, cursor) = *r.pick(&[(true, false), (false, false), (false, true)]);
  let flen = 24 + r.us(200);
  let vlen = if r.chance(1, 4) { flen } else { 8 + r.us(flen - 7) };
  let path = hx::scratch().join("c02.agg");
  let _ = std::fs::remove_file(&path);
  let _ = write!(log.borrow_mut(), "file {flen} memory {vlen} overwrite {overwrite} cursor {cursor}: ");
  let b = AggregateRingBuffer::new("t", vlen as u32, &path, (flen + HEADER) as u32, PerRecordCrc32Check::Yes, if overwrite { AllowOverwrite::Yes } else { AllowOverwrite::Block },
    Arc::new(RingBufferStats::default()), Arc::new(RingBufferStats::default())).map_err(|e| e.to_string())?;
  let mut ps: Vec<_> = (0 .. 3).map(|_| b.clone().register_producer().unwrap()).collect();
  let mut cons = if cursor { Cons::Cursor(b.clone().register_cursor_consumer().map_err(|e| e.to_string())?) } else { Cons::Plain(b.clone().register_consumer().map_err(|e| e.to_string())?) };
  // What the file holds, placed as a single producer places it.
  let mut unread: VecDeque<Rec> = VecDeque::new();
  let (mut nws, mut out) = (0, 0);
  for _ in 0 .. 10 + r.us(40) {
    match r.us(8) {
      0 ..= 3 => {
        // One to three records that fit into memory together, committed in any order.
        let mut sizes = vec![];
        let mut left = vlen;
        for _ in 0 .. 1 + r.us(3) { if left < 6 { break; } let n = if r.chance(1, 6) { left - 4 } else { 1 + r.us(left - 5) }; left -= n + 4; sizes.push(n); if sizes.len() == 1 && r.chance(1, 2) { break; } }
        // Where they go in the file; none of them may have to wait.
        let (mut u, mut w, mut fits) = (unread.clone(), nws, true);
        let mut recs = vec![];
        for n in &sizes {
          let size = n + 8;
          let data = r.bytes(*n);
          if size > flen { recs.push(data); continue; } // Cannot be stored: refused by the file.
          let (at, gap) = if w + size <= flen { (w, flen) } else { (0, w) };
          let hit = |x: &Rec| x.hits(at, at + size) || x.hits(gap, flen);
          if u.iter().take(out).any(hit) || (!overwrite && u.iter().any(hit)) { fits = false; break; }
          while u.front().map_or(false, hit) { u.pop_front(); }
          w = at + size;
          u.push_back(Rec { start: at, size, data: data.clone(), committed: true, who: 0 });
          recs.push(data);
        }
        if !fits { continue; }
        let _ = write!(log.borrow_mut(), "w{sizes:?} ");
        let mut done = 0;
        for (p, d) in ps.iter_mut().zip(&recs) {
          match p.reserve(d.len() as u32, false) { Ok(m) => { m.copy_from_slice(d); done += 1; }, Err(_) => break }
        }
        // Memory may refuse a later one that would have to wrap onto the first.
        if done < recs.len() {
          let keep = recs[.. done].to_vec();
          u = unread.clone();
          w = nws;
          for data in keep {
            let size = data.len() + 8;
            if size > flen { continue; }
            let (at, gap) = if w + size <= flen { (w, flen) } else { (0, w) };
            while u.front().map_or(false, |x| x.hits(at, at + size) || x.hits(gap, flen)) { u.pop_front(); }
            w = at + size;
            u.push_back(Rec { start: at, size, data, committed: true, who: 0 });
          }
          if done == 0 { return Err("an empty buffer refused a record that fits".into()); }
        }
        let mut order: Vec<usize> = (0 .. done).collect();
        if r.chance(1, 2) { order.reverse(); }
        for i in order { ps[i].commit().map_err(|e| e.to_string())?; }
        b.flush();
        unread = u;
        nws = w;
      },
      4 | 5 => {
        if out > 0 && !cursor { continue; }
        let _ = write!(log.borrow_mut(), "R ");
        let got = match &mut cons { Cons::Plain(c) => c.start_read(false).map(<[u8]>::to_vec), Cons::Cursor(c) => c.start_read(false).map(<[u8]>::to_vec), Cons::None => unreachable!() };
        match (got, unread.get(out)) {
          (Ok(d), Some(x)) => { hx::eq!(d, x.data, "delivered"); out += 1; },
          (Err(_), None) => {},
          (Ok(d), None) => return Err(format!("nothing is unread, delivered {d:?}")),
          (Err(e), Some(x)) => return Err(format!("{:?} was not delivered: {e}", x.data)),
        }
      },
      6 => if out > 0 {
        let _ = write!(log.borrow_mut(), "F ");
        match &mut cons { Cons::Plain(c) => c.finish_read(), Cons::Cursor(c) => c.advance_read_pointer(), Cons::None => unreachable!() }.map_err(|e| e.to_string())?;
        unread.pop_front();
        out -= 1;
      },
      _ => if out == 0 && r.chance(1, 6) {
        let _ = write!(log.borrow_mut(), "shutdown");
        break;
      },
    }
  }
  b.shutdown();
  if ps[0].reserve(1, false).is_ok() { return Err("a buffer that was shut down accepted a reservation".into()); }
  drop((ps, cons));
  drop(b);
  // What was flushed is there when the file is opened again.
  if !cursor && out > 0 { unread.pop_front(); }
  let b = open_file(&path, Kind::File { overwrite, crc: true, cursor: false }, flen).map_err(|e| e.to_string())?;
  let mut c = b.clone().register_consumer().map_err(|e| e.to_string())?;
  for x in unread {
    let d = c.start_read(false).map_err(|e| format!("after reopening: {:?} was not delivered: {e}", x.data))?.to_vec();
    hx::eq!(d, x.data, "after reopening");
    c.finish_read().map_err(|e| e.to_string())?;
  }
  Ok(())
}

fn main() {
  let mut h = Hx::new("random histories on volatile (1-6 producers) and file buffers of 5 to 312 bytes, each drained at its end and compared byte for byte with a model; distinct histories counted");
  let path = hx::scratch().join("c02.rb");
  let opt = Opt { regions: false, delivery: true };
  let (mut drops, mut refused, mut delivered) = (0, 0, 0);
  for i in 0 .. h.n(150_000, 2_500_000) {
    let seed = h.seed * 67_867_967 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("seed {seed} {}", log.borrow()), || {
      let mut b = history(seed, &opt, &log, &path)?;
      log.borrow_mut().push_str("drain");
      b.drain(true)?;
      drops += b.dropped;
      refused += b.refused;
      delivered += b.delivered;
      Ok(())
    });
  }
  for i in 0 .. h.n(400, 6_000) {
    let seed = h.seed * 67_867_967 + i;
    let log = std::cell::RefCell::new(String::new());
    h.case(true, || format!("aggregate seed {seed} {}", log.borrow()), || aggregate(seed, &log));
  }
  println!("{drops} dropped, {refused} refused, {delivered} delivered");
  h.finish()
}

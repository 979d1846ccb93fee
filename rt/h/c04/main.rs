//! deps: bd-grpc-codec bd-proto protobuf bytes
//! The real Encoder and Decoder over several interleaved streams, cut at random places; oracle: the
//! messages that were encoded, and the frame layout written out by hand.
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_proto::protos::client::api::LogUploadRequest as M;
use hx::{ck, eq, Hx, Rng};
use protobuf::Message;

fn msg(r: &mut Rng) -> M {
  let mut m = M::default();
  match r.us(9) {
    0 => {},
    1 => m.upload_uuid = "u".repeat([90, 95, 96, 97, 98, 99, 100, 101][r.us(8)]),
    2 => m.logs = vec![vec![]; r.us(4)],
    3 => m.logs = (0 .. r.us(5)).map(|_| { let n = r.us(200); r.bytes(n) }).collect(),
    4 => { let n = [255, 256, 257, 4096, 65535, 65536, 70000][r.us(7)]; m.logs = vec![r.bytes(n)] },
    5 => m.logs = vec![vec![r.us(256) as u8; r.us(20000)]],
    6 => { m.upload_uuid = "é".repeat(r.us(60)); m.buffer_uuid = "b".into() },
    _ => m.buffer_uuid = format!("{:x}", r.next()),
  }
  m
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Comp { No, Stateless(u32), Stateful(u32) }
fn comp(r: &mut Rng) -> Comp { match r.us(3) { 0 => Comp::No, 1 => Comp::Stateless(1 + r.us(9) as u32), _ => Comp::Stateful(1 + r.us(9) as u32) } }
fn encoder(c: Comp) -> Encoder<M> {
  Encoder::new(match c { Comp::No => None, Comp::Stateless(level) => Some(Compression::StatelessZlib { level }), Comp::Stateful(level) => Some(Compression::StatefulZlib { level }) })
}
fn decoder(c: Comp, mem: bool) -> Decoder<M> {
  Decoder::new(
    match c { Comp::No => None, Comp::Stateless(_) => Some(Decompression::StatelessZlib), Comp::Stateful(_) => Some(Decompression::StatefulZlib) },
    if mem { OptimizeFor::Memory } else { OptimizeFor::Cpu },
  )
}
struct Stream { c: Comp, dec: Decoder<M>, bytes: Vec<u8>, ends: Vec<usize>, msgs: Vec<M>, at: usize, bad: Option<usize>, got: usize, dead: bool }

fn stream(r: &mut Rng, log: &mut Vec<String>) -> Result<Stream, String> {
  let c = comp(r);
  let mut e = encoder(c);
  let mut s = Stream { c, dec: decoder(c, r.chance(1, 2)), bytes: vec![], ends: vec![], msgs: vec![], at: 0, bad: None, got: 0, dead: false };
  let n = r.us(7);
  let bad = if c != Comp::No && r.chance(1, 4) { Some(r.us(n + 1)) } else { None };
  let (mut tx, mut txu) = (0u64, 0u64);
  for i in 0 ..= n {
    if bad == Some(i) {
      // A whole frame whose compressed payload is not a zlib stream, or one whose message is cut off.
      let f: Vec<u8> = match r.us(3) {
        0 => vec![1, 0, 0, 0, 6, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff],
        1 => vec![0, 0, 0, 0, 3, 0x0a, 0x7f, b'x'],
        _ => { let k = 20 + r.us(60); let mut f = vec![1, 0, 0, 0, k as u8]; f.extend(vec![0xfe; k]); f },
      };
      s.bytes.extend(f);
      s.bad = Some(s.bytes.len());
      log.push(format!("{c:?} bad frame ending at {}", s.bytes.len()));
      break;
    }
    if i == n { break; }
    let m = msg(r);
    let plain = m.write_to_bytes().map_err(|e| e.to_string())?;
    let f = e.encode(&m);
    ck!(f.len() >= 5, "frame of {} bytes", f.len());
    let size = u32::from_be_bytes([f[1], f[2], f[3], f[4]]) as usize;
    eq!(size, f.len() - 5, "declared payload size of message {i} ({} bytes)", plain.len());
    match f[0] {
      0 => eq!(&f[5 ..], &plain[..], "payload of an uncompressed frame"),
      1 => ck!(c != Comp::No, "compressed frame without a compressor"),
      x => return Err(format!("compression byte {x}")),
    }
    if c == Comp::No { ck!(f[0] == 0, "flag"); }
    tx += f.len() as u64;
    txu += plain.len() as u64 + 5;
    eq!(e.bandwidth_stats(), (tx, txu), "encoder byte counts");
    s.bytes.extend_from_slice(&f);
    s.ends.push(s.bytes.len());
    s.msgs.push(m);
  }
  if s.bad.is_none() && r.chance(1, 3) {
    // An incomplete frame at the end.
    let t: &[u8] = [&[0u8][..], &[1], &[0, 0, 0, 0], &[0, 0, 0, 0, 1], &[0, 0, 0, 1, 0, 9, 9], &[1, 0xff, 0xff, 0xff, 0xff, 1, 2]][r.us(6)];
    s.bytes.extend_from_slice(t);
  }
  log.push(format!("{:?} frames end at {:?} of {}", s.c, s.ends, s.bytes.len()));
  Ok(s)
}

fn feed(s: &mut Stream, n: usize) -> Result<(), String> {
  let to = (s.at + n).min(s.bytes.len());
  let r = s.dec.decode_data(&s.bytes[s.at .. to]);
  s.at = to;
  let want = s.ends.iter().filter(|e| **e <= to).count();
  if s.bad.is_some_and(|b| b <= to) {
    ck!(r.is_err(), "a malformed frame was accepted");
    s.dead = true;
    return Ok(());
  }
  let got = r.map_err(|e| format!("a well-formed stream was refused after {to} bytes: {e}"))?;
  eq!(got.len(), want - s.got, "messages delivered by the chunk that ends at byte {to}");
  for (i, m) in got.iter().enumerate() { ck!(*m == s.msgs[s.got + i], "message {} differs from what was encoded", s.got + i); }
  s.got = want;
  eq!(s.dec.bandwidth_stats().0, to as u64, "decoder byte count");
  Ok(())
}

fn main() {
  let mut h = Hx::new("a case is several streams encoded, cut at random and decoded alternately on one thread; distinct by frame layout and cuts");
  for i in 0 .. h.n(900, 30000) {
    let seed = h.seed.wrapping_mul(1_000_003) + i;
    let log = std::cell::RefCell::new(vec![]);
    h.case(true, || format!("seed {seed}: {:?}", log.borrow()), || {
      let r = &mut Rng::new(seed);
      let mut ss = vec![];
      for _ in 0 .. 1 + r.us(3) { ss.push(stream(r, &mut log.borrow_mut())?); }
      // How to cut: fixed small pieces, random pieces, or everything at once.
      let modes: Vec<usize> = ss.iter().map(|s| match r.us(6) { 0 if s.bytes.len() < 3000 => 1, 1 if s.bytes.len() < 9000 => 1 + r.us(9), 2 => usize::MAX >> 1, 3 => 0, _ => 2000 + r.us(3000) }).collect();
      log.borrow_mut().push(format!("cuts {modes:?}"));
      loop {
        let live: Vec<usize> = (0 .. ss.len()).filter(|i| !ss[*i].dead && ss[*i].at < ss[*i].bytes.len()).collect();
        if live.is_empty() { break; }
        let k = *r.pick(&live);
        let s = &mut ss[k];
        let n = if modes[k] == 0 {
          // Near the next frame boundary, inside the prefix, or anything.
          let next = s.ends.iter().copied().find(|e| *e > s.at).unwrap_or(s.bytes.len()) - s.at;
          match r.us(5) { 0 => next, 1 => next.saturating_sub(1), 2 => next + 1 + r.us(5), 3 => r.us(7), _ => r.us(next * 2 + 2) }
        } else { modes[k] };
        feed(s, n)?;
      }
      Ok(())
    });
  }
  // Every single cut of a short stream.
  for seed in 0 .. h.n(60, 400) {
    h.case(true, || format!("every cut of stream {seed}"), || {
      let mut r = Rng::new(77 + seed);
      let mut s = stream(&mut r, &mut vec![])?;
      if s.bytes.len() > 700 { return Ok(()); }
      for a in 0 ..= s.bytes.len() {
        s.dec = decoder(s.c, seed % 2 == 0);
        (s.at, s.got, s.dead) = (0, 0, false);
        feed(&mut s, a)?;
        if !s.dead { let n = s.bytes.len(); feed(&mut s, n)?; }
      }
      Ok(())
    });
  }
  h.finish()
}

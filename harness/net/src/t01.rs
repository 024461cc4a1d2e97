//! Length-prefixed messages.
use crate::alloc;
use bd_grpc_codec::{Compression, Decoder, Decompression, Encoder, OptimizeFor};
use bd_proto::protos::client::api::LogUploadRequest as M;
use bd_stats_common::{Counter, DynCounter};
use protobuf::Message;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::time::Duration;
use vh::{Check, Rng};

#[derive(Debug, Default)]
struct Count(AtomicU64);
impl Counter for Count {
  fn inc(&self) {
    self.inc_by(1);
  }
  fn inc_by(&self, v: u64) {
    self.0.fetch_add(v, Ordering::SeqCst);
  }
}

fn message(r: &mut Rng) -> M {
  let mut m = M::default();
  let size = match r.below(10) {
    0 => 0,
    1 => r.range(90, 110),
    2 => r.range(1, 10),
    3 => r.range(30_000, 70_000),
    4 if r.chance(1, 8) => r.range(100_000, 3_000_000),
    _ => r.range(0, 2_000),
  } as usize;
  if r.bool() {
    m.upload_uuid = r.string();
  }
  let mut left = size;
  while left > 0 {
    let n = if r.bool() { left } else { 1 + r.idx(left) };
    left -= n;
    m.logs.push(match r.below(3) {
      0 => vec![r.u64() as u8; n],
      1 => r.bytes(n),
      _ => {
        let word = r.bytes(8);
        (0 .. n).map(|i| word[i % 8] ^ (i / 64) as u8).collect()
      },
    });
  }
  if r.chance(1, 10) {
    m.logs.push(vec![]);
  }
  m
}

fn compression(r: &mut Rng) -> (Option<Compression>, Option<Decompression>, u8) {
  let level = r.below(10) as u32;
  match r.below(4) {
    0 => (None, [None, Some(Decompression::StatelessZlib)][r.idx(2)].take(), 0),
    1 => (Some(Compression::StatefulZlib { level }), Some(Decompression::StatefulZlib), 2),
    _ => (Some(Compression::StatelessZlib { level }), Some(Decompression::StatelessZlib), 1),
  }
}

struct Stream {
  bytes: Vec<u8>,
  at: usize,
  dec: Decoder<M>,
  want: Vec<M>,
  ends: Vec<usize>,
  got: usize,
  decompressed: Vec<usize>,
  rx: Option<(Arc<Count>, Arc<Count>)>,
  /// Bytes of it were changed, cut or are noise.
  bad: bool,
  dead: bool,
  kind: u8,
}

fn stream(c: &Check, r: &mut Rng, case: u64, few: bool) -> Stream {
  let (enc, dec, kind) = compression(r);
  let mut e = Encoder::<M>::new(enc);
  let late = r.idx(4);
  let (tx, txu) = (Arc::new(Count::default()), Arc::new(Count::default()));
  let mut s = Stream {
    bytes: vec![],
    at: 0,
    dec: Decoder::new(dec, if r.bool() { OptimizeFor::Cpu } else { OptimizeFor::Memory }),
    want: vec![],
    ends: vec![],
    got: 0,
    decompressed: vec![],
    rx: None,
    bad: false,
    dead: false,
    kind,
  };
  let mut plain = 0u64;
  let mut set = false;
  for i in 0 .. if few { 1 + r.idx(3) } else { r.idx(12) } {
    let m = message(r);
    if i == late {
      e.initialize_stats(tx.clone() as DynCounter, txu.clone() as DynCounter);
      set = true;
    }
    let own = m.write_to_bytes().unwrap();
    let b = e.encode(&m);
    plain += own.len() as u64 + 5;
    let compressed = kind > 0 && own.len() >= 100;
    let len = u32::from_be_bytes(b[1 .. 5].try_into().unwrap()) as usize;
    c.ensure(b[0] == u8::from(compressed) && len + 5 == b.len() && (compressed || b[5 ..] == own[..]), "frame", || {
      format!("case {case}: a message of {} bytes is framed as {:?}… in {} bytes", own.len(), &b[.. 5], b.len())
    });
    c.count(if compressed { "compressed_frames" } else { "plain_frames" });
    s.bytes.extend_from_slice(&b);
    s.ends.push(s.bytes.len());
    s.want.push(m);
    s.decompressed.push(own.len());
  }
  let sent = s.bytes.len() as u64;
  c.ensure(e.bandwidth_stats() == (sent, plain), "sent-bytes", || {
    format!("case {case}: {:?} instead of {:?}", e.bandwidth_stats(), (sent, plain))
  });
  if set {
    let x = (tx.0.load(Ordering::SeqCst), txu.0.load(Ordering::SeqCst));
    c.ensure(x == (sent, plain), "sent-counters", || format!("case {case}: {x:?} instead of {:?}", (sent, plain)));
  }
  s
}

fn damage(r: &mut Rng, s: &mut Stream) {
  s.bad = true;
  let n = s.bytes.len();
  match r.below(5) {
    0 => {
      let k = r.idx(40);
      s.bytes = r.bytes(k);
      if r.bool() && k > 0 {
        s.bytes[0] &= 1;
      }
    },
    1 if n > 0 => {
      let k = r.idx(n);
      s.bytes.truncate(k);
    },
    2 => {
      // A payload that starts well and breaks off within a frame that is complete.
      let own = message(r).write_to_bytes().unwrap();
      let mut z = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(6));
      std::io::Write::write_all(&mut z, &own).unwrap();
      let z = z.finish().unwrap();
      let mut z = z[.. r.idx(z.len() + 1)].to_vec();
      if r.bool() {
        z.extend(r.bytes(20));
      }
      let mut f = vec![1];
      f.extend((z.len() as u32).to_be_bytes());
      f.extend(z);
      let at = *r.pick(&s.ends.iter().copied().chain([0]).collect::<Vec<_>>());
      s.bytes.splice(at .. at, f);
    },
    _ if n > 0 => {
      for _ in 0 .. 1 + r.idx(3) {
        let i = if r.bool() { r.idx(n.min(12)) } else { r.idx(n) };
        s.bytes[i] ^= 1 << r.below(8);
      }
    },
    _ => s.bytes = vec![1, 0, 0, 0, 4, 9, 9, 9, 9],
  }
}

/// Gives the decoder the next n bytes and judges what comes out.
fn feed(c: &Check, s: &mut Stream, n: usize, case: u64) {
  let chunk = s.bytes[s.at .. s.at + n].to_vec();
  let (out, up) = alloc::peak(|| s.dec.decode_data(&chunk));
  s.at += n;
  // The buffered bytes, and at most what zlib can make of them, twice while vectors grow.
  let most = 4 * 1100 * s.at as i64 + 200_000;
  c.ensure(up <= most, "memory", || format!("case {case}: {up} bytes were allocated for {} received", s.at));
  match out {
    Ok(ms) => {
      if s.bad {
        return c.count("chunks_of_damaged_streams");
      }
      let due = s.ends.iter().filter(|e| **e <= s.at).count();
      let ok = ms.len() == due - s.got && ms[..] == s.want[s.got .. due];
      c.ensure(ok, "decoded", || {
        format!(
          "case {case}: kind {}: after {} bytes {} messages came instead of {}, or they differ (sizes {:?} and {:?})",
          s.kind,
          s.at,
          ms.len(),
          due - s.got,
          ms.iter().map(Message::compute_size).collect::<Vec<_>>(),
          &s.decompressed[s.got .. due]
        )
      });
      s.got = due;
      c.add("messages", ms.len() as u64);
      let sum = s.decompressed[.. due].iter().sum::<usize>() as u64;
      c.ensure(s.dec.bandwidth_stats() == (s.at as u64, sum), "received-bytes", || {
        format!("case {case}: {:?} instead of {:?}", s.dec.bandwidth_stats(), (s.at, sum))
      });
      if let Some((a, b)) = &s.rx {
        let x = (a.0.load(Ordering::SeqCst), b.0.load(Ordering::SeqCst));
        c.ensure(x == (s.at as u64, sum), "received-counters", || format!("case {case}: {x:?} instead of {:?}", (s.at, sum)));
      }
    },
    Err(e) => {
      c.ensure(s.bad, "refused", || format!("case {case}: kind {}: a valid stream fails after {} bytes: {e}", s.kind, s.at));
      c.count("errors_of_damaged_streams");
      // As the streams of the API do, it is given up.
      s.dead = true;
    },
  }
}

fn streams(c: &Check, r: &mut Rng, case: u64) {
  let several = r.chance(2, 3);
  let n = if several { 2 + r.idx(3) } else { 1 };
  let mut all: Vec<Stream> = (0 .. n).map(|_| stream(c, r, case, several)).collect();
  if r.bool() {
    for i in 0 .. n {
      if r.chance(1, if several { 2 } else { 5 }) {
        damage(r, &mut all[i]);
      }
    }
  }
  let style = r.below(4);
  let mut steps = 0;
  loop {
    let open: Vec<usize> = (0 .. n).filter(|i| !all[*i].dead && all[*i].at < all[*i].bytes.len()).collect();
    if open.is_empty() {
      break;
    }
    let s = &mut all[*r.pick(&open)];
    let left = s.bytes.len() - s.at;
    let k = match style {
      0 if steps < 3_000 => (1 + r.idx(6)).min(left),
      1 => left,
      2 => {
        // Around the ends of frames.
        let e = s.ends.iter().find(|e| **e > s.at).map_or(left, |e| e - s.at);
        (e as i64 + r.range(-6, 6)).clamp(0, left as i64) as usize
      },
      _ => r.idx(left + 1).min(if r.bool() { 2_000 } else { left }),
    };
    if s.rx.is_none() && r.chance(1, 10) {
      let p = (Arc::new(Count::default()), Arc::new(Count::default()));
      s.dec.initialize_stats(p.0.clone() as DynCounter, p.1.clone() as DynCounter);
      s.rx = Some(p);
    }
    feed(c, s, k, case);
    steps += 1;
  }
  for s in &all {
    if !s.bad {
      c.ensure(s.got == s.want.len(), "missing", || format!("case {case}: {} of {} messages came", s.got, s.want.len()));
    }
  }
  let bad = all.iter().filter(|s| s.bad).count();
  c.saw("damaged streams beside whole ones", &(bad, n - bad));
  c.eval((steps > 1).then(|| vh::hash_of(&all.iter().map(|s| &s.bytes).collect::<Vec<_>>())));
  c.sample(|| format!("{n} streams, {bad} damaged, {:?} bytes, {steps} chunks", all.iter().map(|s| s.bytes.len()).collect::<Vec<_>>()));
}

/// An announced length reserves nothing, and an idle decoder that saves memory holds none.
fn memory(c: &Check, r: &mut Rng, case: u64) {
  let mut s = stream(c, r, case, true);
  let prefix = [r.below(3) as u8, 0xff, r.u32() as u8, r.u32() as u8, r.u32() as u8];
  let mut d = Decoder::<M>::new(Some(Decompression::StatelessZlib), OptimizeFor::Cpu);
  let (out, up) = alloc::peak(|| d.decode_data(&prefix));
  c.ensure(out.is_ok_and(|m| m.is_empty()) && up < 100_000, "reserved", || format!("case {case}: {prefix:?} allocates {up}"));
  drop(d);
  let zlib = match s.kind {
    0 => None,
    1 => Some(Decompression::StatelessZlib),
    // Keeps a window.
    _ => return,
  };
  s.dec = Decoder::new(zlib, OptimizeFor::Memory);
  let live = alloc::live();
  let _ = s.dec.decode_data(&s.bytes).map(|m| drop(m));
  let up = alloc::live() - live;
  // Unless it is the first time that this thread decompresses.
  if case > 50 {
    c.ensure(up < 2_000, "idle-memory", || format!("case {case}: an idle decoder holds {up} bytes after {}", s.bytes.len()));
  }
  c.eval(None);
}

/// Streams on several threads at once, each with its own state.
fn threads(c: &Check, r: &mut Rng, case: u64) {
  let seeds: Vec<Rng> = (0 .. 4).map(|_| r.fork()).collect();
  std::thread::scope(|s| {
    for mut r in seeds {
      s.spawn(move || {
        if let Err(p) = vh::no_panic(|| (0 .. 3).for_each(|_| streams(c, &mut r, case))) {
          c.violation("panic", &format!("case {case}: {p}"));
        }
      });
    }
  });
  c.count("threaded_cases");
}

pub fn run(c: &Check) {
  c.rule("cases are one to four interleaved streams of messages cut into chunks, some of them damaged; non-trivial: more than one chunk; distinct by bytes");
  c.cases(c.n(6_000, 400_000), Duration::from_secs(c.n(10, 900)), |case, r| match r.below(20) {
    0 => memory(c, r, case),
    1 => threads(c, r, case),
    _ => streams(c, r, case),
  });
}

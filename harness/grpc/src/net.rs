//! What the gRPC checks share: a service, a network that delays, splits and cuts, panics anywhere.
use bd_grpc::ServiceMethod;
use bytes::Bytes;
use http::HeaderMap;
use http_body::Frame;
use protobuf::reflect::{MethodDescriptor, ServiceDescriptor, SERVICES};
use protobuf::well_known_types::any::Any;
use protobuf::well_known_types::bytes_value::BytesValue;
use protobuf::Message;
use std::convert::Infallible;
use std::net::SocketAddr;
use std::sync::Mutex;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use vh::{Check, Rng};

pub type Req = Any;
pub type Resp = BytesValue;
pub const LONG: Duration = Duration::from_secs(20);

static PANICS: Mutex<Vec<String>> = Mutex::new(vec![]);

pub fn install() {
  *SERVICES.lock().unwrap() = ["Other", "Svc", "Svc2"]
    .into_iter()
    .map(|name| ServiceDescriptor {
      name,
      methods: ["Other", "Call", "Call2"].into_iter().map(|name| MethodDescriptor { name, input: "Any", output: "BytesValue" }).collect(),
    })
    .collect();
  *bd_pgv::proto_validate::REJECT.write().unwrap() = Some(|m| {
    m.downcast_ref::<Any>().is_some_and(|m| m.type_url.starts_with("bad")) || m.downcast_ref::<BytesValue>().is_some_and(|m| m.value.starts_with(b"bad"))
  });
  let old = std::panic::take_hook();
  std::panic::set_hook(Box::new(move |i| {
    PANICS.lock().unwrap().push(i.to_string().replace('\n', " "));
    old(i);
  }));
}

/// The panics since the last call, on any thread.
pub fn panics() -> Vec<String> {
  std::mem::take(&mut *PANICS.lock().unwrap())
}

pub fn method() -> ServiceMethod<Req, Resp> {
  ServiceMethod::new("Svc", "Call")
}
pub const PATH: &str = "/verif.Svc/Call";

pub fn runtime(workers: usize) -> tokio::runtime::Runtime {
  tokio::runtime::Builder::new_multi_thread().worker_threads(workers).enable_all().build().unwrap()
}

/// Runs one case on a runtime of its own; what takes a minute is a hang.
pub fn block<F: std::future::Future<Output = ()>>(c: &Check, case: u64, f: F) {
  let rt = runtime(3);
  panics();
  let r = vh::no_panic(|| rt.block_on(async { tokio::time::timeout(Duration::from_secs(120), f).await }));
  match r {
    Ok(Ok(())) => {},
    Ok(Err(_)) => c.violation("hang", &format!("case {case}: not finished after 120 s")),
    Err(e) => c.violation("panic", &format!("case {case}: {e}")),
  }
  rt.shutdown_timeout(Duration::from_millis(200));
  for p in panics() {
    c.violation("panic", &format!("case {case}: {p}"));
  }
}

/// A text that may have anything in it.
pub fn text(r: &mut Rng) -> String {
  let n = r.below(12);
  let mut s = String::new();
  for _ in 0 .. n {
    match r.below(8) {
      0 => s.push(*r.pick(&['%', '\n', '\r', '\t', '\0', '+', '&', '"', '\\', ' ', '\x7f'])),
      1 => s.push(*r.pick(&['é', '日', '🦀', '\u{80}', '\u{2028}'])),
      2 => s.push_str("%41"),
      3 => s.push(' '),
      _ => s.push((b'a' + r.below(26) as u8) as char),
    }
  }
  s
}

pub fn payload(r: &mut Rng) -> Vec<u8> {
  let n = match r.below(8) {
    0 => 0,
    1 => r.below(3),
    2 => r.range(80, 120) as u64,
    3 => r.range(1_000, 30_000) as u64,
    4 if r.chance(1, 4) => r.range(60_000, 300_000) as u64,
    _ => r.below(300),
  };
  let mut v = r.bytes(n as usize);
  if r.bool() {
    let k = r.range(1, 300) as usize;
    for c in v.chunks_mut(k) {
      let b = c[0];
      c.fill(b);
    }
  }
  if v.starts_with(b"bad") {
    v[0] = b'c';
  }
  v
}

/// One message as it stands on the wire, by the definition of the protocol.
pub fn framed(m: &impl Message, zlib: bool) -> Vec<u8> {
  let raw = m.write_to_bytes().unwrap();
  let (flag, body) = if zlib {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::new(6));
    e.write_all(&raw).unwrap();
    (1, e.finish().unwrap())
  } else {
    (0, raw)
  };
  let mut out = vec![flag];
  out.extend_from_slice(&(body.len() as u32).to_be_bytes());
  out.extend_from_slice(&body);
  out
}

pub fn split(r: &mut Rng, data: &[u8]) -> Vec<Bytes> {
  let mut out = vec![];
  let mut at = 0;
  let most = *r.pick(&[1u64, 7, 100, 5_000, 1_000_000]);
  let most = if data.len() as u64 / most > 300 { 5_000 } else { most };
  while at < data.len() {
    if r.chance(1, 10) {
      out.push(Bytes::new());
    }
    let n = (1 + r.below(most) as usize).min(data.len() - at);
    out.push(Bytes::copy_from_slice(&data[at .. at + n]));
    at += n;
  }
  out
}

/// A step of a body.
#[derive(Clone, Debug)]
pub enum Step {
  Data(Bytes),
  Trailers(HeaderMap),
  Error,
  Stall,
  Sleep(u64),
}

pub fn body(steps: Vec<Step>) -> axum::body::Body {
  let (tx, rx) = tokio::sync::mpsc::channel::<Result<Frame<Bytes>, axum::BoxError>>(1);
  tokio::spawn(async move {
    for s in steps {
      let f = match s {
        Step::Data(b) => Ok(Frame::data(b)),
        Step::Trailers(t) => Ok(Frame::trailers(t)),
        Step::Error => Err("body broke".into()),
        Step::Stall => {
          tx.closed().await;
          return;
        },
        Step::Sleep(us) => {
          tokio::time::sleep(Duration::from_micros(us)).await;
          continue;
        },
      };
      if tx.send(f).await.is_err() {
        return;
      }
    }
  });
  axum::body::Body::new(http_body_util::StreamBody::new(tokio_stream::wrappers::ReceiverStream::new(rx)))
}

pub async fn serve(router: axum::Router) -> SocketAddr {
  let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
  let a = l.local_addr().unwrap();
  tokio::spawn(async move {
    let _ = axum::serve(l, router.into_make_service()).tcp_nodelay(true).await;
  });
  a
}

/// A way to `to` that splits and delays, and cuts each connection after `cut` bytes either way.
pub async fn proxy(r: &mut Rng, to: SocketAddr, cut: Option<u64>) -> SocketAddr {
  let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
  let a = l.local_addr().unwrap();
  let mut r = r.fork();
  tokio::spawn(async move {
    loop {
      let Ok((s, _)) = l.accept().await else { return };
      let (mut r1, mut r2) = (r.fork(), r.fork());
      tokio::spawn(async move {
        let Ok(t) = TcpStream::connect(to).await else { return };
        let _ = (s.set_nodelay(true), t.set_nodelay(true));
        let (mut sr, mut sw) = s.into_split();
        let (mut tr, mut tw) = t.into_split();
        let up = async { pump(&mut r1, &mut sr, &mut tw, cut).await };
        let down = async { pump(&mut r2, &mut tr, &mut sw, cut).await };
        tokio::select! { () = up => {}, () = down => {} }
      });
    }
  });
  a
}

async fn pump(r: &mut Rng, from: &mut (impl AsyncReadExt + Unpin), to: &mut (impl AsyncWriteExt + Unpin), cut: Option<u64>) {
  let mut left = cut.unwrap_or(u64::MAX);
  let mut buf = vec![0; 70_000];
  loop {
    let most = *r.pick(&[3usize, 50, 3_000, 70_000]);
    let n = match from.read(&mut buf[.. most]).await {
      Ok(n) if n > 0 => n as u64,
      _ => return,
    };
    if r.chance(1, 8) {
      tokio::time::sleep(Duration::from_micros(r.below(300))).await;
    }
    let n = n.min(left);
    if to.write_all(&buf[.. n as usize]).await.is_err() {
      return;
    }
    left -= n;
    if left == 0 {
      return;
    }
  }
}

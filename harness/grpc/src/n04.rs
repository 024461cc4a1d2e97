//! The transport of native programs, between a client that plays bd-api's part and a scripted server.
use crate::net::{self, payload, split, Step};
use bd_api::{PlatformNetworkManager, PlatformNetworkStream, StreamEvent};
use bd_hyper_network::{Handle, HyperNetwork};
use bd_shutdown::ComponentShutdownTrigger;
use bytes::Bytes;
use http::{HeaderMap, Request, Response};
use http_body_util::BodyExt;
use hyper::body::Incoming;
use std::collections::HashMap;
use std::convert::Infallible;
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio::net::TcpListener;
use tokio::sync::{mpsc, Notify};
use vh::{Check, Rng};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Kind {
  /// Answers, sends its part, and ends once it has read everything.
  Whole,
  /// Reads only once the client has been given everything.
  Patient,
  /// Ends while the client may still be sending.
  Early,
  /// Ends without reading what the client sends, of which it tells HTTP/2.
  Unread,
  /// Ends by an error of the body.
  Broken,
  HttpError,
  GrpcError,
  /// Never answers.
  Silent,
  /// Answers, but does not read.
  Deaf,
  /// Answers and reads, and does not end.
  Endless,
}

#[derive(Clone)]
struct Plan {
  kind: Kind,
  /// What the server sends.
  down: Vec<Bytes>,
  /// How much the client is going to send.
  up: usize,
  delay: u64,
  zero_status: bool,
  trailers: bool,
  /// Bytes the server reads before it sends.
  first: usize,
}

#[derive(Default)]
struct Got {
  head: Option<(http::Method, String, HeaderMap)>,
  body: Vec<u8>,
  calls: u64,
  finished: bool,
}

struct Server {
  plans: Vec<Plan>,
  got: Vec<Mutex<Got>>,
  more: Notify,
  gone: AtomicBool,
  sides: Arc<Vec<Mutex<Side>>>,
}

async fn answer(s: Arc<Server>, req: Request<Incoming>) -> Result<Response<axum::body::Body>, Infallible> {
  let (head, mut body) = req.into_parts();
  let n: usize = head.headers.get("x-n").and_then(|n| n.to_str().ok()).and_then(|n| n.parse().ok()).unwrap_or(0);
  let p = s.plans[n].clone();
  {
    let mut g = s.got[n].lock().unwrap();
    g.head = Some((head.method, head.uri.path().to_string(), head.headers));
    g.calls += 1;
  }
  tokio::time::sleep(Duration::from_micros(p.delay)).await;
  if p.kind == Kind::Silent {
    let () = std::future::pending().await;
  }
  let mut r = Response::builder().header("content-type", "application/grpc");
  match p.kind {
    Kind::HttpError => return Ok(r.status([201, 204, 301, 404, 503][p.up % 5]).body(axum::body::Body::from("no")).unwrap()),
    Kind::GrpcError => return Ok(r.header("grpc-status", "7").header("grpc-message", "no").body(if p.up % 2 == 0 { axum::body::Body::empty() } else { axum::body::Body::from("no") }).unwrap()),
    _ => {},
  }
  if p.zero_status {
    r = r.header("grpc-status", "0");
  }
  let (tx, rx) = mpsc::channel::<Result<http_body::Frame<Bytes>, axum::BoxError>>(1);
  let s2 = s.clone();
  let kind = p.kind;
  if kind == Kind::Unread {
    // Until the answer has ended, it may still be read.
    tokio::spawn(async move {
      let _body = body;
      while !s2.got[n].lock().unwrap().finished {
        tokio::time::sleep(Duration::from_micros(300)).await;
      }
    });
  } else if kind == Kind::Deaf {
    // The body is held and not read.
    tokio::spawn(async move {
      let _body = body;
      let () = std::future::pending().await;
    });
  } else {
    let all = p.down.iter().map(Bytes::len).sum::<usize>();
    tokio::spawn(async move {
      while kind == Kind::Patient && s2.sides[n].lock().unwrap().got.len() < all {
        tokio::time::sleep(Duration::from_micros(200)).await;
      }
      while let Some(Ok(f)) = body.frame().await {
        if let Ok(d) = f.into_data() {
          s2.got[n].lock().unwrap().body.extend(d);
          s2.more.notify_waiters();
        }
      }
      s2.got[n].lock().unwrap().finished = true;
      s2.more.notify_waiters();
    });
  }
  tokio::spawn(async move {
    let read = |k: usize| {
      let s = s.clone();
      async move {
        loop {
          let more = s.more.notified();
          {
            let g = s.got[n].lock().unwrap();
            if g.body.len() >= k || g.finished {
              return;
            }
          }
          let _ = tokio::time::timeout(Duration::from_millis(20), more).await;
        }
      }
    };
    if !matches!(kind, Kind::Deaf | Kind::Unread | Kind::Patient) {
      read(p.first).await;
    }
    for d in p.down {
      if tx.send(Ok(http_body::Frame::data(d))).await.is_err() {
        return;
      }
    }
    match kind {
      Kind::Whole | Kind::Patient => read(p.up).await,
      Kind::Broken => {
        let _ = tx.send(Err("broken".into())).await;
      },
      Kind::Endless | Kind::Deaf => {
        tx.closed().await;
      },
      _ => {},
    }
    if p.trailers {
      let mut t = HeaderMap::new();
      t.insert("grpc-status", "0".parse().unwrap());
      let _ = tx.send(Ok(http_body::Frame::trailers(t))).await;
    }
    if kind == Kind::Unread {
      drop(tx);
      tokio::time::sleep(Duration::from_micros(p.delay)).await;
      s.got[n].lock().unwrap().finished = true;
    }
  });
  Ok(r.body(axum::body::Body::new(http_body_util::StreamBody::new(tokio_stream::wrappers::ReceiverStream::new(rx)))).unwrap())
}

async fn serve(s: Arc<Server>) -> SocketAddr {
  let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
  let a = l.local_addr().unwrap();
  tokio::spawn(async move {
    loop {
      let Ok((c, _)) = l.accept().await else { return };
      if s.gone.load(Ordering::SeqCst) {
        continue;
      }
      let s = s.clone();
      tokio::spawn(async move {
        let _ = c.set_nodelay(true);
        let service = hyper::service::service_fn(move |r| answer(s.clone(), r));
        let _ = hyper::server::conn::http2::Builder::new(hyper_util::rt::TokioExecutor::new()).initial_stream_window_size(65_535).serve_connection(hyper_util::rt::TokioIo::new(c), service).await;
      });
    }
  });
  a
}

/// What a client has sent and been given on one stream.
#[derive(Default)]
struct Side {
  sent: Vec<u8>,
  got: Vec<u8>,
  events: u64,
  closed: Option<String>,
}

/// One stream, as the API client would run it: one task that either sends or takes events.
async fn stream(c: &Check, r: &mut Rng, case: u64, handle: &Handle, n: usize, kind: Kind, messages: &[Vec<u8>], side: &Mutex<Side>) -> Result<(), String> {
  let (tx, mut rx) = mpsc::channel(*r.pick(&[1, 16, 16]));
  let n = n.to_string();
  let headers = HashMap::from([("x-n", n.as_str()), ("content-type", "application/grpc"), ("x-bitdrift-api-key", "k%1")]);
  let mut out = handle.start_stream(tx, &(), &headers).await.map_err(|e| format!("start: {e}"))?;
  let mut due = messages.iter();
  if kind == Kind::Patient {
    // A client that takes events while it sends.
    let mut sender = Box::pin(async {
      for m in due.by_ref() {
        side.lock().unwrap().sent.extend(m);
        out.send_data(m).await.map_err(|e| format!("send: {e}"))?;
      }
      Ok::<(), String>(())
    });
    let mut sent = false;
    loop {
      let event = tokio::select! {
        s = &mut sender, if !sent => {
          s?;
          sent = true;
          continue;
        },
        e = rx.recv() => e.ok_or("no more events")?,
      };
      let mut s = side.lock().unwrap();
      s.events += 1;
      match event {
        StreamEvent::Data(d) => s.got.extend(d),
        StreamEvent::StreamClosed(why) => {
          s.closed = Some(why);
          return Ok(());
        },
      }
    }
  }
  let eager = r.chance(1, 3);
  loop {
    let send_now = due.len() > 0 && (eager || r.bool());
    let event = if send_now {
      let m = due.next().unwrap();
      side.lock().unwrap().sent.extend(m);
      out.send_data(m).await.map_err(|e| format!("send: {e}"))?;
      if r.chance(1, 10) {
        tokio::time::sleep(Duration::from_micros(r.below(500))).await;
      }
      continue;
    } else if due.len() > 0 {
      match rx.try_recv() {
        Ok(e) => e,
        Err(_) => {
          tokio::task::yield_now().await;
          continue;
        },
      }
    } else {
      match rx.recv().await {
        Some(e) => e,
        None => return Err("no more events".into()),
      }
    };
    let mut s = side.lock().unwrap();
    s.events += 1;
    match event {
      StreamEvent::Data(d) => s.got.extend(d),
      StreamEvent::StreamClosed(why) => {
        s.closed = Some(why);
        break;
      },
    }
  }
  // What is sent to a stream that has closed is dropped, and nothing follows the close.
  if r.chance(1, 3) {
    out.send_data(b"stale").await.map_err(|e| format!("send: {e}"))?;
    c.count("stale messages");
  }
  match tokio::time::timeout(net::LONG, rx.recv()).await {
    Ok(None) => {},
    Ok(Some(e)) => c.violation("after-close", &format!("case {case}: stream {n} closed, and then had {e:?}")),
    Err(_) => c.violation("not-let-go", &format!("case {case}: stream {n} closed, and its channel is kept")),
  }
  Ok(())
}

async fn life(c: &Check, r: &mut Rng, case: u64) {
  let n = 1 + r.below(5) as usize;
  let stop = r.chance(2, 5);
  let mut plans = vec![];
  let mut messages: Vec<Vec<Vec<u8>>> = vec![];
  for i in 0 .. n {
    let last = i + 1 == n;
    let kind = match r.below(14) {
      13 => Kind::Patient,
      0 => Kind::Early,
      1 | 12 => Kind::Unread,
      2 => Kind::Broken,
      3 => Kind::HttpError,
      4 => Kind::GrpcError,
      5 if last && stop => Kind::Silent,
      6 if last && stop => Kind::Deaf,
      7 if last && stop => Kind::Endless,
      _ => Kind::Whole,
    };
    let count = match r.below(4) {
      0 => 0,
      1 => 1 + r.below(3),
      2 => 1 + r.below(60),
      _ => 1 + r.below(10),
    };
    let mut m: Vec<Vec<u8>> = (0 .. count).map(|_| payload(r)).collect();
    if kind == Kind::Deaf || kind == Kind::Patient {
      m.extend((0 .. 12).map(|_| r.bytes(20_000)));
    }
    let up = m.iter().map(Vec::len).sum();
    let data = match r.below(3) {
      0 => vec![],
      1 => payload(r),
      _ => { let k = r.below(30_000) as usize; r.bytes(k) },
    };
    plans.push(Plan {
      kind,
      down: split(r, &data).into_iter().collect(),
      up,
      delay: if r.chance(1, 4) { r.below(3_000) } else { 0 },
      zero_status: r.chance(1, 4),
      trailers: r.bool(),
      first: if r.chance(1, 3) { r.below(up as u64 + 1) as usize } else { 0 },
    });
    messages.push(m);
  }
  let cut = r.chance(1, 5).then(|| r.below(60_000));
  let refuse = r.chance(1, 12);
  let sides: Arc<Vec<Mutex<Side>>> = Arc::new(plans.iter().map(|_| Mutex::default()).collect());
  let server = Arc::new(Server { sides: sides.clone(), got: plans.iter().map(|_| Mutex::default()).collect(), plans: plans.clone(), more: Notify::new(), gone: AtomicBool::new(refuse) });
  let mut address = serve(server.clone()).await;
  if r.chance(2, 3) || cut.is_some() {
    address = net::proxy(r, address, cut).await;
  }
  let shape = format!("{:?}, cut {cut:?}, refuse {refuse}, stop {stop}", plans.iter().map(|p| (p.kind, p.up, p.down.len())).collect::<Vec<_>>());
  let mut trigger = Some(ComponentShutdownTrigger::default());
  let url = format!("http://{address}");
  let threaded = r.chance(1, 4);
  let (handle, done) = if threaded {
    (HyperNetwork::run_on_thread(&url, trigger.as_ref().unwrap().make_shutdown()), None)
  } else {
    let (network, handle) = HyperNetwork::new(&url, trigger.as_ref().unwrap().make_shutdown());
    (handle, Some(tokio::spawn(network.start())))
  };
  let at = Arc::new(Mutex::new(0usize));
  let mut r2 = r.fork();
  let client = async {
    for i in 0 .. n {
      *at.lock().unwrap() = i;
      let limit = if stop && i + 1 == n { Duration::from_secs(60) } else { net::LONG };
      match tokio::time::timeout(limit, stream(c, &mut r2, case, &handle, i, plans[i].kind, &messages[i], &sides[i])).await {
        Ok(Ok(())) => {},
        Ok(Err(e)) => return Err((i, e)),
        Err(_) => return Err((i, "stuck".to_string())),
      }
    }
    Ok(())
  };
  // The stop, at any time.
  let ended;
  let stop_at = if r.bool() { r.below(3_000) } else { r.below(60_000) };
  if stop {
    let mut client = Box::pin(client);
    let early = tokio::select! {
      e = &mut client => Some(e),
      () = tokio::time::sleep(Duration::from_micros(stop_at)) => None,
    };
    let stopped = tokio::time::timeout(Duration::from_secs(10), async {
      let (a, b) = tokio::join!(trigger.take().unwrap().shutdown(), async {
        match early {
          Some(e) => e,
          None => client.await,
        }
      });
      let () = a;
      b
    })
    .await;
    let Ok(e) = stopped else {
      c.violation("stop-stuck", &format!("case {case}: {shape}: 10 s after the stop at {stop_at} us, in stream {}, not all has ended", at.lock().unwrap()));
      return;
    };
    c.count("stops");
    if let Err((i, e)) = &e {
      c.saw("where a stop met it", &(plans[*i].kind, e.split(':').next().unwrap().to_string()));
      c.ensure(e != "stuck", "stuck", || format!("case {case}: {shape}: stream {i} is stuck"));
    }
    ended = e.map_or_else(|e| e.0, |()| n);
  } else {
    match client.await {
      Ok(()) => {},
      Err((i, e)) => {
        let s = sides[i].lock().unwrap();
        c.violation("stream-failed", &format!("case {case}: {shape}: stream {i}: {e} ({} sent, {} events, {} bytes got, {} arrived)", s.sent.len(), s.events, s.got.len(), server.got[i].lock().unwrap().body.len()));
        return;
      },
    }
    ended = n;
    c.count("lives");
  }
  for i in 0 .. ended {
    let (s, g, p) = (sides[i].lock().unwrap(), server.got[i].lock().unwrap(), &plans[i]);
    let what = || format!("case {case}: {shape}: stream {i} ({} sent, {} bytes arrived; {} got, closed {:?})", s.sent.len(), g.body.len(), s.got.len(), s.closed);
    let down: Vec<u8> = p.down.concat();
    let clean = cut.is_none() && !refuse;
    c.ensure(g.calls <= 1, "twice", what);
    c.ensure(s.sent.starts_with(&g.body), "arrived-wrong", what);
    match p.kind {
      Kind::HttpError | Kind::GrpcError => drop(c.ensure(s.got.is_empty(), "error-with-data", what)),
      _ => drop(c.ensure(down.starts_with(&s.got), "got-wrong", what)),
    }
    if clean {
      if let Some((m, path, h)) = c.ensure(g.head.is_some(), "never-came", what).then(|| g.head.clone().unwrap()) {
        let ok = m == http::Method::POST && path == "/bitdrift_public.protobuf.client.v1.ApiService/Mux" && h.get("x-bitdrift-api-key").is_some_and(|k| k == "k%1") && h.get("content-type").is_some_and(|k| k == "application/grpc");
        c.ensure(ok, "request", || format!("{}: {m} {path} {h:?}", what()));
      }
      match p.kind {
        Kind::Whole | Kind::Patient => {
          c.ensure(s.got == down && g.body == s.sent, "lost", what);
          c.add("bytes both ways", (s.got.len() + g.body.len()) as u64);
        },
        Kind::Early | Kind::Unread => drop(c.ensure(s.got == down, "lost-at-end", what)),
        _ => {},
      }
    }
    c.saw("ends", &(p.kind, s.closed.clone(), clean));
    c.add("events", s.events);
    c.count("streams");
  }
  // Without its client the loop ends as well; and a client without the loop is told.
  if stop {
    let (tx, _rx) = mpsc::channel(1);
    let mut h = handle.clone();
    let a = tokio::time::timeout(net::LONG, h.send_data(b"x")).await;
    let b = tokio::time::timeout(net::LONG, PlatformNetworkManager::<()>::start_stream(&h, tx, &(), &HashMap::new())).await;
    c.ensure(matches!(a, Ok(Err(_))) && matches!(b, Ok(Err(_))), "after-stop", || format!("case {case}: after the stop a message gives {a:?}, a stream {:?}", b.map(|b| b.map(|_| ()))));
  } else {
    drop(handle);
    let gone = tokio::time::timeout(net::LONG, trigger.take().unwrap().shutdown_after_client(done)).await;
    c.ensure(gone.is_ok(), "never-ends", || format!("case {case}: {shape}: 20 s after its client left, the loop still runs"));
  }
  c.eval(Some(vh::hash_of(&(&shape, &plans.iter().map(|p| (p.first, p.delay)).collect::<Vec<_>>()))));
  c.sample(|| shape.clone());
}

trait After {
  async fn shutdown_after_client(self, done: Option<tokio::task::JoinHandle<anyhow::Result<()>>>);
}
impl After for ComponentShutdownTrigger {
  async fn shutdown_after_client(self, done: Option<tokio::task::JoinHandle<anyhow::Result<()>>>) {
    match done {
      Some(d) => d.await.unwrap().unwrap(),
      None => self.shutdown().await,
    }
  }
}

pub fn run(c: &Check) {
  c.rule("a case is a life of the transport with its streams; distinct by what the server does, sizes and cut");
  c.assume("connections are plain: the TLS connector is a stand-in");
  c.cases(c.n(240, 8_000), Duration::from_secs(if c.thorough() { 600 } else { 60 }), |case, r| net::block(c, case, life(c, r, case)));
}

//! The accept loop of a server.
use crate::net::{self, Req, Resp};
use axum::extract::ConnectInfo;
use bd_grpc::axum_helper::serve_with_connect_info;
use bd_grpc::{make_unary_router, Client, Compression, Handler, Result};
use http::{Extensions, HeaderMap};
use prometheus::{IntCounter, IntGauge};
use std::net::SocketAddr;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use time::ext::NumericalDuration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::watch;
use vh::{Check, Rng};

struct H {
  gate: watch::Receiver<bool>,
  inside: AtomicU64,
  peers: Mutex<Vec<SocketAddr>>,
}

impl H {
  async fn work(&self, wait: bool, from: SocketAddr) {
    self.peers.lock().unwrap().push(from);
    self.inside.fetch_add(1, Ordering::SeqCst);
    if wait {
      let _ = self.gate.clone().wait_for(|g| *g).await;
    }
  }
}

#[async_trait::async_trait]
impl Handler<Req, Resp> for H {
  async fn handle(&self, _: HeaderMap, ext: Extensions, request: Req) -> Result<Resp> {
    let from = ext.get::<ConnectInfo<SocketAddr>>().expect("connect info").0;
    self.work(request.type_url == "wait", from).await;
    Ok(Resp { value: request.value, ..Default::default() })
  }
}

async fn until(mut f: impl FnMut() -> bool) -> bool {
  for _ in 0 .. 20_000 {
    if f() {
      return true;
    }
    tokio::time::sleep(Duration::from_millis(1)).await;
  }
  f()
}

/// One HTTP/1.1 request on a kept connection; its body.
async fn ask(s: &mut TcpStream, path: &str) -> std::io::Result<String> {
  s.write_all(format!("GET {path} HTTP/1.1\r\nhost: a\r\n\r\n").as_bytes()).await?;
  let mut got = vec![];
  loop {
    let t = String::from_utf8_lossy(&got).to_string();
    if let Some((head, body)) = t.split_once("\r\n\r\n") {
      let n: usize = head.to_lowercase().split("content-length: ").nth(1).and_then(|l| l.split("\r\n").next()).and_then(|n| n.parse().ok()).unwrap_or(0);
      if body.len() >= n {
        return Ok(body.to_string());
      }
    }
    let mut b = [0; 500];
    let n = s.read(&mut b).await?;
    if n == 0 {
      return Err(std::io::ErrorKind::UnexpectedEof.into());
    }
    got.extend(&b[.. n]);
  }
}

async fn server(c: &Check, r: &mut Rng, case: u64) {
  let (open, gate) = watch::channel(false);
  let h = Arc::new(H { gate, inside: AtomicU64::new(0), peers: Mutex::default() });
  let (h1, h2) = (h.clone(), h.clone());
  let router = make_unary_router(&net::method(), h.clone(), |_| {}, IntCounter::new("e", "e").unwrap(), false)
    .route("/now", axum::routing::get(move |ConnectInfo(a): ConnectInfo<SocketAddr>| async move {
      h1.work(false, a).await;
      format!("now {a}")
    }))
    .route("/wait", axum::routing::get(move |ConnectInfo(a): ConnectInfo<SocketAddr>| async move {
      h2.work(true, a).await;
      format!("wait {a}")
    }));
  let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
  let at = l.local_addr().unwrap();
  let (total, active) = (IntCounter::new("t", "t").unwrap(), IntGauge::new("a", "a").unwrap());
  let (stop, stopped) = tokio::sync::oneshot::channel::<()>();
  let back = Arc::new(AtomicBool::new(false));
  let (t2, a2, b2) = (total.clone(), active.clone(), back.clone());
  let serving = tokio::spawn(async move {
    let out = serve_with_connect_info(router, l, t2, a2.clone(), async {
      let _ = stopped.await;
    })
    .await;
    b2.store(true, Ordering::SeqCst);
    (out.is_ok(), a2.get())
  });
  let n = r.range(0, 7) as usize;
  let mut links = vec![];
  let mut expected_peers = 0u64;
  for _ in 0 .. n {
    let s = TcpStream::connect(at).await.unwrap();
    links.push(s);
  }
  c.ensure(until(|| total.get() == n as u64 && active.get() == n as i64).await, "connections", || format!("case {case}: {n} connections are counted as {} in all, {} active", total.get(), active.get()));
  let mut used = vec![false; n];
  for (i, s) in links.iter_mut().enumerate() {
    for _ in 0 .. r.below(3) {
      used[i] = true;
      let me = s.local_addr().unwrap();
      let got = tokio::time::timeout(net::LONG, ask(s, "/now")).await;
      expected_peers += 1;
      c.ensure(matches!(&got, Ok(Ok(b)) if *b == format!("now {me}")), "answer", || format!("case {case}: a request from {me} is answered {got:?}"));
    }
  }
  // Some leave.
  let gone = r.below(n as u64 + 1) as usize;
  for _ in 0 .. gone {
    let k = r.idx(links.len());
    links.swap_remove(k);
    used.swap_remove(k);
  }
  c.ensure(until(|| active.get() == (n - gone) as i64).await && total.get() == n as u64, "connections", || format!("case {case}: after {gone} of {n} left {} are active, {} in all", active.get(), total.get()));
  // Those that are inside a request when the server is told to stop, and one gRPC caller.
  let mut waiting = vec![];
  let busy = r.below(links.len() as u64 + 1) as usize;
  for mut s in links.drain(.. busy) {
    waiting.push(tokio::spawn(async move {
      let me = s.local_addr().unwrap();
      let got = tokio::time::timeout(Duration::from_secs(60), ask(&mut s, "/wait")).await;
      match got {
        Ok(Ok(b)) if b == format!("wait {me}") => Ok(()),
        x => Err(format!("{x:?}")),
      }
    }));
  }
  let grpc = r.bool();
  if grpc {
    waiting.push(tokio::spawn(async move {
      let client = Client::new_http(&at.to_string(), 20.seconds(), 1).unwrap();
      let request = Req { type_url: "wait".into(), value: b"abc".to_vec(), ..Default::default() };
      match client.unary(&net::method(), None, request, 60.seconds(), Compression::None).await {
        Ok(m) if m.value == b"abc" => Ok(()),
        x => Err(crate::n01::shown(&x)),
      }
    }));
  }
  expected_peers += waiting.len() as u64;
  c.ensure(until(|| h.inside.load(Ordering::SeqCst) == expected_peers).await, "not-served", || format!("case {case}: {} requests of {expected_peers} reached their handlers", h.inside.load(Ordering::SeqCst)));
  let drops = r.chance(1, 4);
  if drops { drop(stop) } else { stop.send(()).unwrap() }
  // New connections are refused (or closed unserved) from here on.
  c.ensure(
    {
      let mut refused = false;
      for _ in 0 .. 4_000 {
        match TcpStream::connect(at).await {
          Err(_) => refused = true,
          Ok(_) => tokio::time::sleep(Duration::from_millis(5)).await,
        }
        if refused {
          break;
        }
      }
      refused
    },
    "still-accepting",
    || format!("case {case}: 20 s after the stop new connections are accepted"),
  );
  if !waiting.is_empty() {
    tokio::time::sleep(Duration::from_millis(r.below(5))).await;
    c.ensure(!back.load(Ordering::SeqCst), "left-early", || format!("case {case}: the server returned with {} requests inside", waiting.len()));
    c.add("requests inside at the stop", waiting.len() as u64);
  }
  let shape = format!("{n} connections, {gone} gone, {busy} busy, grpc {grpc}, idle {}, dropped {drops}", links.len());
  c.eval(Some(vh::hash_of(&(&shape, &used))));
  open.send(true).unwrap();
  for w in waiting {
    let got = w.await.unwrap();
    c.ensure(got.is_ok(), "request-dropped", || format!("case {case}: {shape}: a request inside at the stop got {got:?}"));
  }
  match tokio::time::timeout(net::LONG, serving).await {
    Ok(Ok((ok, active))) => {
      c.ensure(ok && active == 0, "after-the-stop", || format!("case {case}: {shape}: returned {ok}, with {active} active"));
    },
    x => {
      c.violation("never-stops", &format!("case {case}: {shape}: 20 s after the last request: {x:?}"));
    },
  }
  for mut s in links {
    let mut b = [0; 10];
    let got = tokio::time::timeout(net::LONG, s.read(&mut b)).await;
    c.ensure(matches!(got, Ok(Ok(0) | Err(_))), "left-open", || format!("case {case}: {shape}: an idle connection is open after the stop: {got:?}"));
  }
  c.add("connections", n as u64);
  c.sample(|| shape);
}

pub fn run(c: &Check) {
  c.rule("a case is a life of a server: connections, requests, leavers, a stop; distinct by shape");
  c.assume("loopback TCP and the HTTP/2 stack of the registry, with stand-ins for the crates want and snap");
  c.cases(c.n(500, 1_000_000), Duration::from_secs(c.n(13, 900)), |case, r| net::block(c, case, server(c, r, case)));
}

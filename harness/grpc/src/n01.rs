//! Unary calls.
use crate::net::{self, body, framed, payload, split, text, Req, Resp, Step};
use bd_grpc::{make_unary_router, Client, Code, Compression, Error, Handler, Result, Status};
use http::{Extensions, HeaderMap, HeaderValue};
use prometheus::IntCounter;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use time::ext::NumericalDuration;
use tower::ServiceExt;
use vh::{Check, Rng};

pub fn code(n: u64) -> Code {
  match n % 7 {
    0 => Code::Unknown,
    1 => Code::InvalidArgument,
    2 => Code::FailedPrecondition,
    3 => Code::Internal,
    4 => Code::Unavailable,
    5 => Code::Unauthenticated,
    _ => Code::NotFound,
  }
}

/// What the handler is to do.
#[derive(Clone, Debug)]
pub enum Plan {
  Answer(Vec<u8>),
  Status(u64, Option<String>),
  Closed,
  Timeout,
  Codec,
  Never,
}

impl Plan {
  pub fn draw(r: &mut Rng) -> Self {
    match r.below(12) {
      0 ..= 2 => Self::Status(r.below(7), if r.chance(1, 5) { None } else { Some(text(r)) }),
      3 => Self::Closed,
      4 => Self::Timeout,
      5 => Self::Codec,
      _ => Self::Answer(payload(r)),
    }
  }

  pub fn error(&self) -> Option<Error> {
    Some(match self {
      Self::Answer(_) | Self::Never => return None,
      Self::Status(n, m) => Error::Grpc(Status { code: code(*n), message: m.clone() }),
      Self::Closed => Error::Closed,
      Self::Timeout => Error::RequestTimeout,
      Self::Codec => Error::Codec(bd_grpc_codec::Error::Protocol("of the handler")),
    })
  }

  /// What the caller is to see.
  fn seen(&self) -> std::result::Result<Vec<u8>, (i32, Option<String>)> {
    Err(match self {
      Self::Answer(v) => return Ok(v.clone()),
      Self::Status(n, m) => (code(*n).to_int(), m.clone()),
      Self::Closed => (13, Some("Non-200 response code: 500 Internal Server Error".into())),
      Self::Timeout => (13, Some("upstream timeout".into())),
      Self::Codec => (13, Some("Non-200 response code: 400 Bad Request".into())),
      Self::Never => (-1, None),
    })
  }
}

struct H {
  plans: Vec<Plan>,
  delays: Vec<u64>,
  seen: Mutex<Vec<(Req, HeaderMap)>>,
  now: AtomicI64,
  most: AtomicI64,
}

#[async_trait::async_trait]
impl Handler<Req, Resp> for H {
  async fn handle(&self, headers: HeaderMap, _: Extensions, request: Req) -> Result<Resp> {
    let id: usize = request.type_url.trim_start_matches("bad").parse().unwrap_or(usize::MAX);
    self.seen.lock().unwrap().push((request, headers));
    let Some(plan) = self.plans.get(id) else { return Ok(Resp::default()) };
    let now = self.now.fetch_add(1, Ordering::SeqCst) + 1;
    self.most.fetch_max(now, Ordering::SeqCst);
    if self.delays[id] > 0 {
      tokio::time::sleep(Duration::from_micros(self.delays[id])).await;
    }
    self.now.fetch_sub(1, Ordering::SeqCst);
    match plan {
      Plan::Answer(v) => Ok(Resp { value: v.clone(), ..Default::default() }),
      Plan::Never => std::future::pending().await,
      p => Err(p.error().unwrap()),
    }
  }
}

pub fn shown(e: &std::result::Result<Resp, Error>) -> String {
  match e {
    Ok(r) => format!("Ok({} bytes, hash {})", r.value.len(), vh::hash_of(&r.value)),
    Err(e) => format!("{e:?}"),
  }
}

pub fn compression(r: &mut Rng) -> (Compression, &'static str) {
  match r.below(3) {
    0 => (Compression::None, "plain"),
    1 => (Compression::GRpc(bd_grpc_codec::Compression::StatelessZlib { level: r.below(10) as u32 }), "zlib"),
    _ => (Compression::Snappy, "snappy"),
  }
}

/// The real client, over a network, to the real router.
async fn calls(c: &Check, r: &mut Rng, case: u64) {
  let n = r.range(1, 9) as usize;
  let slow = r.chance(1, 6);
  let cut = if r.chance(1, 6) { Some(r.range(1, 20_000) as u64) } else { None };
  let validate = r.bool();
  let plans: Vec<_> = (0 .. n).map(|_| if slow && r.chance(1, 3) { Plan::Never } else { Plan::draw(r) }).collect();
  let delays = (0 .. n).map(|_| if r.chance(1, 3) { r.below(3_000) } else { 0 }).collect();
  let h = Arc::new(H { plans: plans.clone(), delays, seen: Mutex::default(), now: AtomicI64::new(0), most: AtomicI64::new(0) });
  let told: Arc<Mutex<Vec<String>>> = Arc::default();
  let errors = IntCounter::new("e", "e").unwrap();
  let told2 = told.clone();
  let decoy = Arc::new(H { plans: vec![], delays: vec![], seen: Mutex::default(), now: AtomicI64::new(0), most: AtomicI64::new(0) });
  let mut router = make_unary_router(&net::method(), h.clone(), move |e| told2.lock().unwrap().push(e.to_string()), errors.clone(), validate);
  for (s, m) in [("Svc", "Call2"), ("Svc2", "Call"), ("Other", "Other")] {
    router = router.merge(make_unary_router(&bd_grpc::ServiceMethod::<Req, Resp>::new(s, m), decoy.clone(), |_| {}, IntCounter::new("d", "d").unwrap(), false));
  }
  let mut to = net::serve(router).await;
  if cut.is_some() || r.bool() {
    to = net::proxy(r, to, cut).await;
  }
  let most = r.range(1, 5);
  let client = Arc::new(Client::new_http(&to.to_string(), 20.seconds(), most as u64).unwrap());
  let mut tasks = vec![];
  let mut sent = vec![];
  for id in 0 .. n {
    let bad = r.chance(1, 6);
    let request = Req { type_url: format!("{}{id}", if bad { "bad" } else { "" }), value: payload(r), ..Default::default() };
    let mut headers = HeaderMap::new();
    let note = r.ident(8);
    headers.insert("x-note", HeaderValue::from_str(&note).unwrap());
    let with = r.chance(3, 4);
    let (z, zn) = compression(r);
    c.count(zn);
    let patience = if matches!(plans[id], Plan::Never) && !(bad && validate) { time::Duration::milliseconds(r.range(1, 60)) } else { 40.seconds() };
    sent.push((request.clone(), if with { Some(note) } else { None }, bad));
    let client = client.clone();
    tasks.push(tokio::spawn(async move {
      let t0 = Instant::now();
      let out = client.unary(&net::method(), with.then_some(headers), request, patience, z).await;
      (out, t0.elapsed())
    }));
  }
  let mut want_told = vec![];
  let mut lost = false;
  for (id, t) in tasks.into_iter().enumerate() {
    let (request, note, bad) = &sent[id];
    let (got, took) = match t.await {
      Ok(x) => x,
      Err(e) => {
        c.violation("call-crashed", &format!("case {case}: call {id} {e}"));
        continue;
      },
    };
    let rejected = *bad && validate;
    let want = if rejected { Err((3, Some("Invalid request: ProtoValidation(\"rejected\")".to_string()))) } else { plans[id].seen() };
    let never = matches!(plans[id], Plan::Never) && !rejected;
    let ok = match (&got, &want) {
      (Ok(m), Ok(v)) => m.value == *v,
      (Err(Error::RequestTimeout), Err((-1, _))) => never,
      (Err(Error::Grpc(s)), Err((n, m))) => s.code.to_int() == *n && s.message == *m,
      _ => false,
    };
    let torn = cut.is_some() && matches!(&got, Err(Error::HyperClient(_) | Error::BodyStream(_) | Error::RequestTimeout | Error::ConnectionTimeout));
    lost |= torn;
    c.ensure(ok || torn, "wrong-result", || {
      format!("case {case}: call {id} of {n} (validate {validate}, cut {cut:?}, bad {bad}, {} bytes sent) returned {} where {} was due", request.value.len(), shown(&got).chars().take(300).collect::<String>(), format!("{:?}", plans[id]).chars().take(300).collect::<String>())
    });
    c.ensure(took < net::LONG || cut.is_some(), "late-result", || format!("case {case}: call {id} took {took:?}"));
    let seen: Vec<_> = h.seen.lock().unwrap().iter().filter(|s| s.0.type_url == request.type_url).cloned().collect();
    let least = usize::from(!rejected && !torn && !never);
    c.ensure(seen.len() >= least && seen.len() <= usize::from(!rejected), "handled-once", || {
      format!("case {case}: call {id} (rejected {rejected}, torn {torn}) reached the handler {} times", seen.len())
    });
    for s in seen {
      c.ensure(s.0 == *request, "request-changed", || format!("case {case}: call {id} reached the handler with {} bytes of {}", s.0.value.len(), request.value.len()));
      let got = s.1.get("x-note").map(|v| v.to_str().unwrap().to_string());
      c.ensure(got == *note, "headers-lost", || format!("case {case}: call {id} sent x-note {note:?}, the handler was given {got:?}"));
    }
    if !never {
      if rejected {
        want_told.push("A gRPC error occurred: code: 3, message: Invalid request: ProtoValidation(\"rejected\")".to_string());
      } else if let Some(e) = plans[id].error() {
        want_told.push(e.to_string());
      }
    }
    c.eval(Some(vh::hash_of(&(id, n, zn_of(&got), plans[id].seen().map(|v| v.len()), request.value.len()))));
    c.count(match &got {
      Ok(_) => "answers",
      Err(Error::Grpc(_)) => "statuses",
      Err(Error::RequestTimeout) => "timeouts",
      Err(_) => "torn calls",
    });
  }
  if !slow && cut.is_none() {
    let got = h.most.load(Ordering::SeqCst);
    c.ensure(got <= most, "too-many-at-once", || format!("case {case}: {got} calls at once, the client is limited to {most}"));
  }
  if !lost {
    let mut told = told.lock().unwrap().clone();
    told.sort();
    want_told.sort();
    c.ensure(told == want_told, "error-handler", || format!("case {case}: the error handler was given {told:?} where {want_told:?} was due"));
    c.ensure(errors.get() == want_told.len() as u64, "error-counter", || format!("case {case}: {} errors were counted of {}", errors.get(), want_told.len()));
  }
  let stray = decoy.seen.lock().unwrap().len();
  c.ensure(stray == 0, "wrong-method", || format!("case {case}: {stray} calls reached the handler of another method"));
  c.add("handler calls", h.seen.lock().unwrap().len() as u64);
}

fn zn_of(r: &std::result::Result<Resp, Error>) -> u8 {
  match r {
    Ok(_) => 0,
    Err(Error::Grpc(_)) => 1,
    Err(_) => 2,
  }
}

/// The real client and a server that answers anything.
async fn answers(c: &Check, r: &mut Rng, case: u64) {
  let m = Resp { value: payload(r), ..Default::default() };
  let zlib = r.bool();
  let said = r.chance(4, 5);
  let mut headers = HeaderMap::new();
  if zlib && said {
    headers.insert("grpc-encoding", "deflate".parse().unwrap());
  }
  // What is due: the message, a status, any error, a timeout.
  enum Due {
    Message,
    Status(i32, Option<String>),
    Error,
    Timeout,
  }
  let good = framed(&m, zlib);
  let mut due = if zlib && !said { Due::Error } else { Due::Message };
  let mut ok_trailers = HeaderMap::new();
  ok_trailers.insert("grpc-status", "0".parse().unwrap());
  let mut status = 200;
  let mut steps: Vec<Step> = split(r, &good).into_iter().map(Step::Data).collect();
  let end = r.below(5) > 0;
  let what = r.below(13);
  let mut kind = "a message";
  match what {
    0 => {
      kind = "nothing";
      steps.clear();
      due = Due::Status(13, Some("Invalid response body".into()));
    },
    1 if said || !zlib => {
      kind = "two messages";
      steps.extend(split(r, &framed(&Resp::default(), false)).into_iter().map(Step::Data));
      due = Due::Status(13, Some("Invalid response body".into()));
    },
    2 => {
      kind = "part of a message";
      let k = r.below(good.len() as u64) as usize;
      steps = split(r, &good[.. k]).into_iter().map(Step::Data).collect();
      due = Due::Error;
    },
    3 => {
      kind = "a body that breaks";
      let k = r.idx(steps.len() + 1);
      steps.truncate(k);
      steps.push(Step::Error);
      due = Due::Error;
    },
    4 => {
      kind = "a body that stalls";
      let k = r.idx(steps.len() + 1);
      steps.truncate(k);
      steps.push(Step::Stall);
      due = Due::Timeout;
    },
    5 => {
      kind = "an HTTP error";
      status = *r.pick(&[400, 403, 404, 500, 503, 302]);
      let s = http::StatusCode::from_u16(status).unwrap();
      due = Due::Status(13, Some(format!("Non-200 response code: {s}")));
    },
    6 => {
      kind = "a status in the headers";
      let (n, t) = (code(r.below(7)).to_int(), text(r));
      headers.insert("grpc-status", n.into());
      headers.insert("grpc-message", HeaderValue::from_str(&urlencoding::encode(&t)).unwrap());
      due = Due::Status(n, Some(t));
      if r.bool() {
        steps.clear();
      }
    },
    7 | 8 => {
      kind = "a status in the trailers";
      let (n, t) = (code(r.below(7)).to_int(), text(r));
      if r.bool() {
        steps.clear();
      }
      let mut h = HeaderMap::new();
      h.insert("grpc-status", n.into());
      h.insert("grpc-message", HeaderValue::from_str(&urlencoding::encode(&t)).unwrap());
      steps.push(Step::Trailers(h));
      due = Due::Status(n, Some(t));
    },
    9 => {
      kind = "noise";
      let mut junk = vec![*r.pick(&[0u8, 1, 1, 2, 255])];
      let k = r.range(1, 40);
      junk.extend((k as u32).to_be_bytes());
      junk.extend((0 .. k).map(|_| 0xff));
      steps = split(r, &junk).into_iter().map(Step::Data).collect();
      due = Due::Error;
    },
    _ => {},
  }
  let plain_end = !matches!(steps.last(), Some(Step::Trailers(_) | Step::Error | Step::Stall));
  if end && plain_end {
    steps.push(Step::Trailers(ok_trailers));
  }
  for _ in 0 .. r.below(3) {
    let k = r.idx(steps.len() + 1);
    steps.insert(k, Step::Sleep(r.below(500)));
  }
  let shape = format!("{kind}, {} bytes, zlib {zlib} (said {said}), {} steps, trailers {end}", m.value.len(), steps.len());
  let router = axum::Router::new().route(
    net::PATH,
    axum::routing::post(move || async move {
      let mut b = axum::response::Response::builder().status(status).header("content-type", "application/grpc");
      b.headers_mut().unwrap().extend(headers);
      b.body(body(steps)).unwrap()
    }),
  );
  let to = net::serve(router).await;
  let client = Client::new_http(&to.to_string(), 20.seconds(), 1).unwrap();
  let (z, _) = compression(r);
  let patience = if matches!(due, Due::Timeout) { time::Duration::milliseconds(r.range(20, 80)) } else { 40.seconds() };
  let request = Req { type_url: "0".into(), ..Default::default() };
  let Ok(got) = tokio::time::timeout(net::LONG, client.unary(&net::method(), None, request, patience, z)).await else {
    c.violation("no-result", &format!("case {case}: no result within 20 s, with a timeout of {patience}, of an answer that is {shape}"));
    return;
  };
  let ok = match (&got, &due) {
    (Ok(g), Due::Message) => *g == m,
    (Err(Error::Grpc(s)), Due::Status(n, t)) => s.code.to_int() == *n && s.message == *t,
    (Err(_), Due::Error) => true,
    (Err(Error::RequestTimeout), Due::Timeout) => true,
    _ => false,
  };
  // What is not compressed although the other side may compress is read as it is.
  c.ensure(ok, "wrong-reading", || format!("case {case}: an answer that is {shape} was read as {}", shown(&got)));
  c.count(kind);
  c.sample(|| format!("an answer that is {shape} is read as {}", shown(&got)));
  c.eval(Some(vh::hash_of(&shape)));
}

/// Anything sent to the real router.
async fn requests(c: &Check, r: &mut Rng, case: u64) {
  for round in 0 .. 12 {
    let plan = Plan::draw(r);
    let h = Arc::new(H { plans: vec![plan.clone()], delays: vec![0], seen: Mutex::default(), now: AtomicI64::new(0), most: AtomicI64::new(0) });
    let told: Arc<Mutex<u64>> = Arc::default();
    let told2 = told.clone();
    let errors = IntCounter::new("e", "e").unwrap();
    let validate = r.bool();
    let router = make_unary_router(&net::method(), h.clone(), move |_| *told2.lock().unwrap() += 1, errors.clone(), validate);
    let bad = r.chance(1, 6);
    let m = Req { type_url: if bad { "bad0" } else { "0" }.into(), value: payload(r), ..Default::default() };
    let zlib = r.bool();
    let mut req = axum::extract::Request::builder().method("POST").uri(net::PATH).header("content-type", "application/grpc");
    let said = r.chance(4, 5);
    if zlib && said {
      req = req.header("grpc-encoding", "deflate");
    }
    let accepts = r.bool();
    if accepts {
      req = req.header("grpc-accept-encoding", *r.pick(&["deflate", "gzip", "identity", "DEFLATE"]));
    }
    let may = req.headers_ref().unwrap().get("grpc-accept-encoding").is_some_and(|v| v == "deflate");
    let good = framed(&m, zlib);
    let snappy = r.chance(1, 3);
    // The number of messages, or none where it must be refused.
    let mut whole = Some(1);
    let mut bytes = good.clone();
    let mut breaks = false;
    let mut kind = "one";
    match r.below(10) {
      0 => {
        kind = "no message";
        bytes.clear();
        whole = Some(0);
      },
      1 => {
        kind = "two messages";
        bytes.extend(framed(&Req { type_url: "0".into(), ..Default::default() }, false));
        whole = Some(2);
      },
      2 => {
        kind = "part of a message";
        bytes.truncate(r.below(good.len() as u64) as usize);
        whole = Some(0);
      },
      3 => {
        kind = "noise";
        bytes = vec![*r.pick(&[0u8, 1])];
        let k = r.range(1, 40);
        bytes.extend((k as u32).to_be_bytes());
        bytes.extend((0 .. k).map(|_| 0xff));
        whole = None;
      },
      4 => {
        kind = "a broken body";
        breaks = true;
        whole = None;
      },
      _ => {},
    }
    if zlib && !said && !matches!(whole, Some(0)) {
      whole = None;
    }
    let mut broken_snappy = false;
    if snappy {
      req = req.header("content-encoding", "snappy");
      let plain = bytes.clone();
      bytes = snap(&plain);
      if r.chance(1, 4) {
        broken_snappy = true;
        whole = None;
        bytes = match r.below(3) {
          0 => vec![],
          1 => vec![0xff; 9],
          _ => {
            let mut b = snap(&plain);
            b[0] ^= 1;
            b
          },
        };
      }
    }
    let mut steps: Vec<Step> = split(r, &bytes).into_iter().map(Step::Data).collect();
    if breaks {
      let k = r.idx(steps.len() + 1);
      steps.truncate(k);
      steps.push(Step::Error);
    }
    let shape = format!("{kind}, bad {bad}, validate {validate}, zlib {zlib} (said {said}), snappy {snappy} (broken {broken_snappy}), {} bytes", bytes.len());
    let Ok(answer) = tokio::time::timeout(net::LONG, router.oneshot(req.body(body(steps)).unwrap())).await else {
      c.violation("no-answer", &format!("case {case}.{round}: no answer to a request of {shape}"));
      return;
    };
    let answer = answer.unwrap();
    let seen = h.seen.lock().unwrap().len();
    let rejected = validate && bad;
    let handled = whole == Some(1) && !rejected;
    c.ensure(seen == usize::from(handled), "handled-wrongly", || format!("case {case}.{round}: a request of {shape} reached the handler {seen} times"));
    if handled {
      let got = h.seen.lock().unwrap()[0].0.clone();
      c.ensure(got == m, "request-misread", || format!("case {case}.{round}: a request of {shape} was read as {} bytes", got.value.len()));
    }
    let failed = !(handled && matches!(plan, Plan::Answer(_)));
    let (n, t) = (errors.get(), *told.lock().unwrap());
    c.ensure(n == u64::from(failed) && t == n, "errors-counted", || format!("case {case}.{round}: {n} errors counted, {t} told, of a request of {shape}, handled as {plan:?}"));
    let status = answer.status().as_u16();
    let grpc = answer.headers().get("grpc-status").map(|v| v.to_str().unwrap().to_string());
    let told = answer.headers().get("grpc-message").map(|v| urlencoding::decode(v.to_str().unwrap()).unwrap().to_string());
    let enc = answer.headers().get("grpc-encoding").map(|v| v.to_str().unwrap().to_string());
    let got = http_body_util::BodyExt::collect(answer.into_body()).await.unwrap();
    let end = got.trailers().and_then(|t| t.get("grpc-status")).map(|v| v.to_str().unwrap().to_string());
    let data = got.to_bytes();
    let ok = match (&plan, whole) {
      _ if rejected && whole == Some(1) => grpc.as_deref() == Some("3") && status == 200,
      (_, None) if breaks && !broken_snappy => status == 500 && grpc.is_none(),
      (_, None) => status == 400 || (breaks && status == 500),
      (_, Some(0 | 2)) => status == 200 && grpc.as_deref() == Some("3") && told.as_deref() == Some("Invalid request body"),
      (Plan::Answer(v), _) => {
        let mut d = bd_grpc_codec::Decoder::<Resp>::new(enc.is_some().then_some(bd_grpc_codec::Decompression::StatelessZlib), bd_grpc_codec::OptimizeFor::Cpu);
        let out = d.decode_data(&data);
        status == 200 && grpc.is_none() && end.as_deref() == Some("0") && (enc.is_none() || (may && enc.as_deref() == Some("deflate"))) && out.is_ok_and(|o| o.len() == 1 && o[0].value == *v)
      },
      (Plan::Status(n, t), _) => status == 200 && grpc == Some(code(*n).to_int().to_string()) && told == *t && data.is_empty(),
      (Plan::Timeout, _) => status == 200 && grpc.as_deref() == Some("13") && told.as_deref() == Some("upstream timeout"),
      (Plan::Closed, _) => status == 500,
      (Plan::Codec, _) => status == 400,
      (Plan::Never, _) => true,
    };
    c.ensure(ok, "wrong-answer", || format!("case {case}.{round}: a request of {shape}, handled as {}, is answered {status}, status {grpc:?} {told:?}, encoding {enc:?} (accepted {may}), {} bytes, end {end:?}", format!("{plan:?}").chars().take(200).collect::<String>(), data.len()));
    c.count(&format!("requests: {kind}"));
    c.eval(Some(vh::hash_of(&shape)));
  }
}

fn snap(b: &[u8]) -> Vec<u8> {
  snap::raw::Encoder::new().compress_vec(b).unwrap()
}

/// Statuses as headers, and the small things around a call.
fn statuses(c: &Check, r: &mut Rng, case: u64) {
  for _ in 0 .. 50 {
    let (n, m) = (r.below(7), if r.chance(1, 6) { None } else { Some(text(r)) });
    let s = Status { code: code(n), message: m.clone() };
    let answer = s.into_response();
    let back = Status::from_headers(answer.headers());
    c.ensure(back.code == code(n) && back.message == m, "status-changed", || format!("case {case}: ({}, {m:?}) comes back as {back:?}", code(n).to_int()));
    let raw = HeaderMap::from_iter([
      (http::HeaderName::from_static("grpc-status"), HeaderValue::from_bytes(&(0 .. r.below(3)).map(|_| *r.pick(&[b'0', b'1', b'9', 0xe9, b'-', b' '])).collect::<Vec<_>>()).unwrap()),
      (http::HeaderName::from_static("grpc-message"), HeaderValue::from_bytes(&(0 .. r.below(6)).map(|_| *r.pick(&[b'%', b'4', 0xe9, b'x', b'f', b'\t'])).collect::<Vec<_>>()).unwrap()),
    ]);
    let got = Status::from_headers(&raw);
    let known = ["0", "3", "5", "9", "13", "14", "16"];
    let text = raw["grpc-status"].to_str().unwrap_or("");
    c.ensure(if known.contains(&text) { got.code.to_int().to_string() == text } else { got.code == Code::Unknown }, "status-misread", || format!("case {case}: {raw:?} is {got:?}"));
    let data = payload(r);
    let v = bd_grpc::BinaryHeaderValue::new(&data).to_header_value();
    let want = base64(&data);
    c.ensure(v.as_bytes() == want.as_bytes(), "binary-header", || format!("case {case}: {} bytes become {v:?}", data.len()));
    c.count("statuses as headers");
  }
}

fn base64(data: &[u8]) -> String {
  const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  let mut s = String::new();
  for c in data.chunks(3) {
    let n = u32::from(c[0]) << 16 | u32::from(*c.get(1).unwrap_or(&0)) << 8 | u32::from(*c.get(2).unwrap_or(&0));
    for i in 0 .. 4 {
      s.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
    }
  }
  s
}

/// An address with nobody behind it, and addresses that are none.
async fn nobody(c: &Check, r: &mut Rng, case: u64) {
  let a = {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    l.local_addr().unwrap()
  };
  let client = Client::new_http(&a.to_string(), 20.seconds(), 1).unwrap();
  for _ in 0 .. 3 {
    let got = tokio::time::timeout(net::LONG, client.unary(&net::method(), None, Req::default(), 40.seconds(), compression(r).0)).await;
    c.ensure(matches!(got, Ok(Err(Error::HyperClient(_)))), "nobody", || format!("case {case}: a call to nobody gives {:?}", got.map(|g| shown(&g))));
  }
  for bad in ["", "host/path", "host:1/", "a b", "host?x=1", "host/?x=1", "host:1/p?q"] {
    let ok = Client::new_http(bad, 1.seconds(), 1).is_ok();
    c.ensure(ok == (bad == "host:1/"), "address", || format!("case {case}: a client of {bad:?}: {ok}"));
  }
  c.count("calls to nobody");
}

pub fn run(c: &Check) {
  c.rule("a case is a set of calls over loopback, a scripted answer or a batch of requests; distinct by shape (outcome, sizes, encodings)");
  c.assume("loopback TCP and the HTTP/2 stack of the registry, with stand-ins for the crates want and snap");
  c.cases(c.n(1_400, 1_000_000), Duration::from_secs(c.n(14, 900)), |case, r| match case % 8 {
    0 | 1 | 2 => net::block(c, case, calls(c, r, case)),
    3 | 4 => net::block(c, case, answers(c, r, case)),
    5 | 6 => net::block(c, case, requests(c, r, case)),
    _ => {
      statuses(c, r, case);
      if r.chance(1, 4) {
        net::block(c, case, nobody(c, r, case));
      }
    },
  });
}

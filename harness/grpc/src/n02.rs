//! Streams.
use crate::n01::{code, Plan};
use crate::net::{self, framed, payload, split, text, Req, Resp, Step};
use bd_grpc::{make_server_streaming_router, BodySender, Client, Error, Result, ServerStreamingApi, ServerStreamingHandler, StreamStats, StreamingApi, StreamingApiSender};
use bd_grpc_codec::{Compression, OptimizeFor};
use bd_server_stats::stats::{Collector, CounterWrapper};
use bytes::Bytes;
use http::{Extensions, HeaderMap, HeaderValue};
use http_body::Frame;
use prometheus::IntCounter;
use std::collections::VecDeque;
use std::future::Future;
use std::sync::{mpsc as std_mpsc, Arc, Mutex};
use std::task::Poll;
use std::time::Duration;
use time::ext::NumericalDuration;
use tokio::sync::{mpsc, watch, Notify};
use vh::{Check, Rng};

#[derive(Clone, Debug)]
enum Act {
  Send(Vec<u8>),
  Raw(Vec<u8>),
  Sleep(u64),
}

struct H {
  acts: Vec<Act>,
  end: Plan,
  forever: bool,
  seen: Mutex<Vec<(Req, HeaderMap)>>,
  done: Notify,
}

#[async_trait::async_trait]
impl ServerStreamingHandler<Resp, Req> for H {
  async fn stream(&self, headers: HeaderMap, _: Extensions, request: Req, sender: &mut StreamingApiSender<Resp>) -> Result<()> {
    self.seen.lock().unwrap().push((request, headers));
    loop {
      for a in &self.acts {
        match a {
          Act::Send(v) => sender.send(Resp { value: v.clone(), ..Default::default() }).await?,
          Act::Raw(v) => sender.send_raw(framed(&Resp { value: v.clone(), ..Default::default() }, false).into()).await?,
          Act::Sleep(us) => tokio::time::sleep(Duration::from_micros(*us)).await,
        }
      }
      if !self.forever {
        break;
      }
      sender.send(Resp { value: b"more".to_vec(), ..Default::default() }).await?;
    }
    self.done.notify_one();
    match self.end.error() {
      Some(e) => Err(e),
      None => Ok(()),
    }
  }
}

fn acts(r: &mut Rng) -> Vec<Act> {
  let n = *r.pick(&[0, 1, 3, 10, 40]);
  (0 .. n)
    .map(|_| match r.below(8) {
      0 => Act::Sleep(r.below(2_000)),
      1 => Act::Raw(payload(r)),
      _ => Act::Send(payload(r)),
    })
    .collect()
}

fn optimize(r: &mut Rng) -> OptimizeFor {
  if r.bool() {
    OptimizeFor::Cpu
  } else {
    OptimizeFor::Memory
  }
}

/// The values of a scope's counters: (name with labels, value).
fn counters(c: &Collector) -> Vec<(String, u64)> {
  let mut out = vec![];
  for f in c.gather() {
    for m in f.get_metric() {
      let l: Vec<_> = m.get_label().iter().map(|l| l.get_value().to_string()).collect();
      out.push((format!("{}{}", f.get_name(), if l.is_empty() { String::new() } else { format!("/{}", l.join(",")) }), m.get_counter().get_value() as u64));
    }
  }
  out
}

async fn eventually(mut f: impl FnMut() -> bool) -> bool {
  for _ in 0 .. 20_000 {
    if f() {
      return true;
    }
    tokio::time::sleep(Duration::from_millis(1)).await;
  }
  f()
}

/// The real client and the real router: one request, a stream of answers.
async fn downstream(c: &Check, r: &mut Rng, case: u64) {
  let collector = Collector::default();
  let stats = StreamStats::new(&collector.scope("g"), "s");
  let leave = r.chance(1, 6);
  let mut list = acts(r);
  let client_checks = r.bool();
  let bad_at = if r.chance(1, 6) && !list.is_empty() {
    let k = r.idx(list.len());
    list[k] = Act::Send(b"bad message".to_vec());
    Some(k)
  } else {
    None
  };
  let end = if r.bool() { Plan::Answer(vec![]) } else { Plan::draw(r) };
  let h = Arc::new(H { acts: list.clone(), end: end.clone(), forever: leave, seen: Mutex::default(), done: Notify::new() });
  let told: Arc<Mutex<Vec<String>>> = Arc::default();
  let told2 = told.clone();
  let offered = if r.bool() { Some(Compression::StatelessZlib { level: r.below(10) as u32 }) } else { None };
  let validate = r.bool();
  let router = make_server_streaming_router(&net::method(), h.clone(), move |e| told2.lock().unwrap().push(e.to_string()), stats, validate, offered);
  let cut = if r.chance(1, 6) && !leave { Some(r.range(200, 60_000) as u64) } else { None };
  let mut to = net::serve(router).await;
  if cut.is_some() || r.bool() {
    to = net::proxy(r, to, cut).await;
  }
  let client = Client::new_http(&to.to_string(), 20.seconds(), 3).unwrap();
  let mut headers = HeaderMap::new();
  let note = r.ident(8);
  headers.insert("x-note", HeaderValue::from_str(&note).unwrap());
  let accepts = r.bool();
  if accepts {
    headers.insert("grpc-accept-encoding", "deflate".parse().unwrap());
  }
  let bad = r.chance(1, 8);
  let request = Req { type_url: if bad { "bad" } else { "0" }.into(), value: payload(r), ..Default::default() };
  let want: Vec<Vec<u8>> = list.iter().filter_map(|a| if let Act::Send(v) | Act::Raw(v) = a { Some(v.clone()) } else { None }).collect();
  let shape = format!("{} messages, {} bytes, ends {}, offered {offered:?}, accepts {accepts}, cut {cut:?}, leave {leave}, bad request {bad} (validate {validate}), bad message {bad_at:?} (validate {client_checks})", want.len(), want.iter().map(Vec::len).sum::<usize>(), format!("{end:?}").chars().take(80).collect::<String>());
  let got = client.server_streaming(&net::method(), Some(headers), request.clone(), client_checks, optimize(r)).await;
  c.eval(Some(vh::hash_of(&shape)));
  c.count("server streams");
  let refused = bad && validate;
  let mut stream = match got {
    Ok(s) => s,
    Err(e) => {
      let due = refused && matches!(&e, Error::Grpc(s) if s.code == bd_grpc::Code::InvalidArgument);
      c.ensure(due || (cut.is_some() && matches!(e, Error::HyperClient(_))), "stream-refused", || format!("case {case}: a stream of {shape} gave {e:?}"));
      if refused && cut.is_none() {
        let n: Vec<_> = counters(&collector);
        let is = |k: &str, v| n.iter().find(|x| x.0 == k).map_or(0, |x| x.1) == v;
        c.ensure(is("g:s:stream_initiations_total", 1) && is("g:s:stream_completions_total/failure", 1) && is("g:s:stream_completions_total/success", 0), "stream-stats", || format!("case {case}: a refused stream counts {n:?}"));
        c.ensure(h.seen.lock().unwrap().is_empty(), "refused-handled", || format!("case {case}: a refused request reached the handler"));
      }
      return;
    },
  };
  c.ensure(!refused, "not-refused", || format!("case {case}: an invalid request opened a stream"));
  let (rx, rx2) = (IntCounter::new("a", "a").unwrap(), IntCounter::new("b", "b").unwrap());
  stream.initialize_bandwidth_stats(CounterWrapper::make_dyn(rx.clone()), CounterWrapper::make_dyn(rx2.clone()));
  if leave {
    let n = r.below(want.len() as u64 + 3);
    let mut got = 0;
    while got < n {
      match tokio::time::timeout(net::LONG, stream.next()).await {
        Ok(Ok(Some(m))) => got += m.len() as u64,
        Ok(Err(Error::ProtoValidation(_))) if client_checks => break,
        x => {
          c.violation("stream-ended", &format!("case {case}: after {got} of an endless stream of {shape}: {:?}", x.map(|x| x.map(|x| x.map(|x| x.len())))));
          return;
        },
      }
    }
    drop(stream);
    drop(client);
    let ok = eventually(|| told.lock().unwrap().len() == 1).await;
    let told = told.lock().unwrap().clone();
    c.ensure(ok && told == ["Stream has closed"], "leaving-unnoticed", || format!("case {case}: 20 s after the reader of {shape} left, the handler's errors are {told:?}"));
    let n = counters(&collector);
    c.ensure(n.iter().any(|x| x.0 == "g:s:stream_completions_total/failure" && x.1 == 1), "stream-stats", || format!("case {case}: an abandoned stream counts {n:?}"));
    c.count("abandoned streams");
    return;
  }
  let mut got: Vec<Vec<u8>> = vec![];
  let last = loop {
    match tokio::time::timeout(net::LONG, stream.next()).await {
      Err(_) => {
        c.violation("stream-stuck", &format!("case {case}: nothing for 20 s after {} of {shape}", got.len()));
        return;
      },
      Ok(Ok(Some(m))) => {
        c.ensure(!m.is_empty(), "empty-batch", || format!("case {case}: a batch without messages"));
        got.extend(m.into_iter().map(|m| m.value));
      },
      Ok(Ok(None)) => break Ok(()),
      Ok(Err(e)) => break Err(e),
    }
  };
  c.add("streamed messages", got.len() as u64);
  let bad_stop = client_checks && bad_at.is_some();
  let prefix = want.starts_with(&got);
  let torn = cut.is_some() && matches!(last, Err(Error::BodyStream(_)));
  if bad_stop {
    let ok = prefix && got.len() <= bad_at.unwrap() && (matches!(last, Err(Error::ProtoValidation(_))) || torn);
    c.ensure(ok, "invalid-passed", || format!("case {case}: of {shape} {} were read, then {last:?}", got.len()));
    return;
  }
  let due = match (&last, end.error()) {
    (Ok(()), None) => true,
    (Err(Error::Grpc(s)), Some(Error::Grpc(w))) => *s == w,
    (Err(Error::Grpc(s)), Some(w)) => s.code == bd_grpc::Code::Internal && s.message == Some(w.to_string()),
    _ => false,
  };
  c.ensure(prefix && (torn || (due && got.len() == want.len())), "stream-differs", || {
    format!("case {case}: of {shape}, {} were read ({}), and then {last:?}", got.len(), if prefix { "the first ones" } else { "not what was sent" })
  });
  let seen = h.seen.lock().unwrap().clone();
  c.ensure(seen.len() == 1 && seen[0].0 == request && seen[0].1.get("x-note").map(|v| v.to_str().unwrap().to_string()) == Some(note), "stream-request", || format!("case {case}: {shape}: the handler was given {} requests", seen.len()));
  if cut.is_some() {
    return;
  }
  let again = stream.next().await;
  c.ensure(matches!(again, Ok(None)) || last.is_err(), "after-the-end", || format!("case {case}: after the end of {shape}: {:?}", again.map(|x| x.map(|x| x.len()))));
  let want_told: Vec<String> = end.error().iter().map(ToString::to_string).collect();
  c.ensure(eventually(|| told.lock().unwrap().len() >= want_told.len()).await && *told.lock().unwrap() == want_told, "stream-error-handler", || format!("case {case}: {shape}: the error handler was given {:?}", told.lock().unwrap()));
  let n = counters(&collector);
  let v = |k: &str| n.iter().find(|x| x.0 == k).map_or(0, |x| x.1);
  let plain: u64 = want.iter().map(|v| framed(&Resp { value: v.clone(), ..Default::default() }, false).len() as u64).sum();
  let failed = u64::from(end.error().is_some());
  c.ensure(
    v("g:s:stream_initiations_total") == 1
      && v("g:s:stream_completions_total/failure") == failed
      && v("g:s:stream_completions_total/success") == 1 - failed
      && v("g:s:stream_tx_messages_total") == want.len() as u64
      && v("g:s:bandwidth_tx_bytes_total") == rx.get()
      && v("g:s:bandwidth_tx_bytes_uncompressed_total") == plain,
    "stream-stats",
    || format!("case {case}: {shape} counts {n:?}, the reader {} bytes, for {plain} bytes uncompressed", rx.get()),
  );
  if let Some(e) = stream.received_headers().get("grpc-encoding") {
    c.ensure(e == "deflate" && accepts && offered.is_some(), "stream-encoding", || format!("case {case}: {shape} is in {e:?}"));
    c.count("compressed streams");
  }
  c.sample(|| format!("{shape}: {} read, then {last:?}", got.len()));
}

/// The real client and a server that answers each message with its reverse.
async fn both_ways(c: &Check, r: &mut Rng, case: u64) {
  let (stop_tx, stop_rx) = watch::channel(false);
  let with_stop = r.bool();
  let compress = if r.bool() { Some(Compression::StatelessZlib { level: r.below(10) as u32 }) } else { None };
  let end = if r.bool() { None } else { Some((code(r.below(7)).to_int(), text(r))) };
  let took: Arc<Mutex<Vec<Vec<u8>>>> = Arc::default();
  let server_stats: Arc<Mutex<Option<[u64; 4]>>> = Arc::default();
  let ended: Arc<Mutex<Option<String>>> = Arc::default();
  let (took2, stats2, ended2, end2) = (took.clone(), server_stats.clone(), ended.clone(), end.clone());
  let cpu = r.bool();
  let route = axum::routing::post(move |request: axum::extract::Request| async move {
    let (parts, b) = request.into_parts();
    let (tx, rx): (BodySender, _) = mpsc::channel(1);
    let answer = bd_grpc::finalize_response_compression(compress, &parts.headers);
    tokio::spawn(async move {
      let raw = tx.clone();
      let mut api = StreamingApi::<Resp, Req>::new(tx, parts.headers, b, false, answer, if cpu { OptimizeFor::Cpu } else { OptimizeFor::Memory }, with_stop.then_some(stop_rx));
      let out = loop {
        match api.next().await {
          Ok(Some(messages)) => {
            let mut over = false;
            for m in messages {
              took2.lock().unwrap().push(m.value.clone());
              if m.type_url == "end" {
                over = true;
                continue;
              }
              let mut value = m.value;
              value.reverse();
              if api.send(Resp { value, ..Default::default() }).await.is_err() {
                *ended2.lock().unwrap() = Some("closed".into());
                return;
              }
            }
            if over {
              break "asked".to_string();
            }
          },
          Ok(None) => break "none".into(),
          Err(e) => break format!("{e}"),
        }
      };
      let s = api.bandwidth_stats();
      *stats2.lock().unwrap() = Some([s.rx, s.rx_decompressed, s.tx, s.tx_uncompressed]);
      let mut t = HeaderMap::new();
      t.insert("grpc-status", HeaderValue::from_str(&end2.as_ref().map_or(0, |e| e.0).to_string()).unwrap());
      if let Some((_, m)) = &end2 {
        t.insert("grpc-message", HeaderValue::from_str(&urlencoding::encode(m)).unwrap());
      }
      let _ = raw.send(Ok(Frame::trailers(t))).await;
      *ended2.lock().unwrap() = Some(out);
    });
    bd_grpc::new_grpc_response(axum::body::Body::new(http_body_util::StreamBody::new(tokio_stream::wrappers::ReceiverStream::new(rx))), answer)
  });
  let mut to = net::serve(axum::Router::new().route(net::PATH, route)).await;
  if r.bool() {
    to = net::proxy(r, to, None).await;
  }
  let client = Client::new_http(&to.to_string(), 20.seconds(), 3).unwrap();
  let shape = format!("compression {compress:?}, end {end:?}, stoppable {with_stop}");
  let mut api = match tokio::time::timeout(net::LONG, client.streaming(&net::method(), None, false, compress, optimize(r))).await {
    Ok(Ok(a)) => a,
    x => {
      c.violation("stream-refused", &format!("case {case}: a two way stream ({shape}) gave {:?}", x.map(|x| x.map(|_| ()))));
      return;
    },
  };
  let (mut sent, mut got): (Vec<Vec<u8>>, Vec<Vec<u8>>) = (vec![], vec![]);
  let rounds = r.range(1, 6);
  for _ in 0 .. rounds {
    let stopped = with_stop && r.chance(1, 4);
    if stopped {
      stop_tx.send(true).unwrap();
    }
    for _ in 0 .. r.range(1, 5) {
      let mut v = payload(r);
      v.truncate(5_000);
      let m = Req { type_url: "m".into(), value: v.clone(), ..Default::default() };
      let ok = if r.chance(1, 5) { api.send_raw(framed(&m, false).into()).await } else { api.send(m).await };
      c.ensure(ok.is_ok(), "send-failed", || format!("case {case}: {ok:?}"));
      sent.push(v);
    }
    if stopped {
      tokio::time::sleep(Duration::from_millis(2)).await;
      c.count("stops");
      stop_tx.send(false).unwrap();
    }
    while got.len() < sent.len() {
      match tokio::time::timeout(net::LONG, api.next()).await {
        Ok(Ok(Some(m))) => got.extend(m.into_iter().map(|m| m.value)),
        x => {
          c.violation("echo-missing", &format!("case {case}: {shape}: {} of {} answered, then {:?}", got.len(), sent.len(), x.map(|x| x.map(|x| x.map(|x| x.len())))));
          return;
        },
      }
    }
  }
  let back: Vec<Vec<u8>> = got.iter().map(|v| v.iter().rev().copied().collect()).collect();
  c.ensure(*took.lock().unwrap() == sent, "stream-differs", || format!("case {case}: {shape}: what the server read differs from the {} sent", sent.len()));
  c.ensure(back == sent, "stream-differs", || format!("case {case}: {shape}: what came back differs from the {} sent", sent.len()));
  c.add("echoed messages", got.len() as u64);
  c.eval(Some(vh::hash_of(&(&shape, sent.len()))));
  if r.chance(1, 4) {
    drop(api);
    let ok = eventually(|| ended.lock().unwrap().is_some()).await;
    c.ensure(ok, "leaving-unnoticed", || format!("case {case}: {shape}: 20 s after the caller left the server still reads"));
    return;
  }
  let ok = api.send(Req { type_url: "end".into(), ..Default::default() }).await;
  c.ensure(ok.is_ok(), "send-failed", || format!("case {case}: {ok:?}"));
  let last = tokio::time::timeout(net::LONG, api.next()).await;
  let ok = match (&last, &end) {
    (Ok(Ok(None)), None) => true,
    (Ok(Err(Error::Grpc(s))), Some((n, m))) => s.code.to_int() == *n && s.message.as_ref() == Some(m),
    _ => false,
  };
  c.ensure(ok, "wrong-end", || format!("case {case}: {shape} ended with {:?}", last.map(|x| x.map(|x| x.map(|x| x.len())))));
  let s = api.bandwidth_stats();
  let o = server_stats.lock().unwrap().take();
  c.ensure(o.is_some_and(|o| o[0] == s.tx && o[2] == s.rx), "bandwidth", || {
    format!("case {case}: {shape}: the caller counts {} out, {} in; the server {o:?}", s.tx, s.rx)
  });
}

/// A reader alone, polled by hand: any frames, reading stopped and resumed at any point.
fn reader(c: &Check, r: &mut Rng, case: u64) {
  let enc = r.below(4);
  let mut headers = HeaderMap::new();
  match enc {
    1 => drop(headers.insert("grpc-encoding", "deflate".parse().unwrap())),
    2 => drop(headers.insert("grpc-encoding", "gzip".parse().unwrap())),
    3 => drop(headers.insert("x-grpc-encoding", "deflate".parse().unwrap())),
    _ => {},
  }
  // What older clients send: one zlib stream over all messages.
  let mut whole = bd_grpc_codec::Encoder::<Resp>::new(Some(bd_grpc_codec::Compression::StatefulZlib { level: 6 }));
  let validate = r.bool();
  let mut steps: VecDeque<Step> = VecDeque::new();
  // After which byte of the body each message is complete.
  let mut bytes = vec![];
  let mut due: VecDeque<(usize, Option<Resp>)> = VecDeque::new();
  for _ in 0 .. r.below(9) {
    let mut value = payload(r);
    value.truncate(3_000);
    if r.chance(1, 15) {
      value = b"bad".to_vec();
    }
    let m = Resp { value, ..Default::default() };
    // Compressed without having said so: an error.
    let lie = enc % 2 == 0 && r.chance(1, 40);
    if enc == 3 {
      bytes.extend(whole.encode(&m));
    } else {
      bytes.extend(framed(&m, lie || (enc == 1 && r.bool())));
    }
    due.push_back((bytes.len(), (!lie).then_some(m)));
  }
  if r.chance(1, 6) {
    let k = r.below(bytes.len() as u64 + 1) as usize;
    bytes.truncate(k);
  }
  steps.extend(split(r, &bytes).into_iter().map(Step::Data));
  let mut t = HeaderMap::new();
  let (n, m) = (if r.bool() { 0 } else { code(r.below(7)).to_int() }, if r.bool() { Some(text(r)) } else { None });
  // How it ends: Ok(None), a status, an error.
  let mut end: std::result::Result<(), Option<(i32, Option<String>)>> = Ok(());
  match r.below(6) {
    0 => {
      steps.push_back(Step::Error);
      end = Err(None);
    },
    1 => {},
    2 => {
      t.insert("x-other", "1".parse().unwrap());
      steps.push_back(Step::Trailers(t));
    },
    _ => {
      if r.bool() {
        t.insert("x-other", "1".parse().unwrap());
      }
      t.insert("grpc-status", n.into());
      if let Some(m) = &m {
        t.insert("grpc-message", HeaderValue::from_str(&urlencoding::encode(m)).unwrap());
      }
      steps.push_back(Step::Trailers(t));
      if n != 0 {
        end = Err(Some((n, m)));
      }
    },
  }
  let (tx, rx) = mpsc::channel::<std::result::Result<Frame<Bytes>, axum::BoxError>>(4_000);
  let mut tx = Some(tx);
  let b = axum::body::Body::new(http_body_util::StreamBody::new(tokio_stream::wrappers::ReceiverStream::new(rx)));
  let (stop_tx, stop_rx) = watch::channel(false);
  let mut stop_tx = if r.chance(2, 3) { Some(stop_tx) } else { None };
  let mut api = ServerStreamingApi::<Req, Resp>::new(headers, b, validate, optimize(r), stop_tx.is_some().then_some(stop_rx));
  let shape = format!("encoding {enc}, {} messages, {} steps, stoppable {}", due.len(), steps.len(), stop_tx.is_some());
  let mut stopped = false;
  // Frames that are there to be read.
  let mut ready: VecDeque<Step> = VecDeque::new();
  let mut at = 0;
  let mut log = vec![];
  let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
  rt.block_on(tokio::task::unconstrained(async {
    macro_rules! happen {
      () => {
        match r.below(if steps.is_empty() { 4 } else { 8 }) {
          0 if stop_tx.is_some() => {
            stopped = !stopped;
            stop_tx.as_ref().unwrap().send(stopped).unwrap();
            log.push(format!("stop {stopped}"));
            c.count("stops by hand");
          },
          1 if stop_tx.is_some() && !stopped && r.chance(1, 4) => {
            stop_tx = None;
            log.push("no more stops".into());
          },
          2 if steps.is_empty() => drop(tx.take()),
          3 .. => {
            if let Some(s) = steps.pop_front() {
              let f = match &s {
                Step::Data(b) => Ok(Frame::data(b.clone())),
                Step::Trailers(t) => Ok(Frame::trailers(t.clone())),
                _ => Err("body broke".into()),
              };
              tx.as_ref().unwrap().try_send(f).unwrap();
              ready.push_back(s);
            }
          },
          _ => {},
        }
      };
    }
    for _ in 0 .. 4_000 {
      happen!();
      if r.bool() {
        continue;
      }
      // A future that is given up after a few polls loses nothing.
      let mut next = Box::pin(api.next());
      // The last poll waited for a frame, and not for the end of a stop.
      let mut waiting = false;
      for _ in 0 .. r.range(1, 6) {
        let got = std::future::poll_fn(|cx| Poll::Ready(next.as_mut().poll(cx))).await;
        c.count("polls");
        let mut want: Poll<std::result::Result<Option<Vec<Resp>>, Option<(i32, Option<String>)>>> = Poll::Pending;
        // A frame that comes along with a stop may be read or not; whatever is left of it is read later.
        let either = stopped && waiting;
        if !stopped || (either && got.is_ready()) {
          c.add("stops that met a frame", u64::from(either && got.is_ready()));
          loop {
            match ready.pop_front() {
              Some(Step::Data(b)) => {
                at += b.len();
                let mut batch = vec![];
                while due.front().is_some_and(|d| d.0 <= at) {
                  batch.push(due.pop_front().unwrap().1);
                }
                let lied = batch.iter().any(Option::is_none);
                let batch: Vec<Resp> = batch.into_iter().flatten().collect();
                if lied || (validate && batch.iter().any(|m| m.value == b"bad")) {
                  want = Poll::Ready(Err(None));
                  break;
                }
                if !batch.is_empty() {
                  want = Poll::Ready(Ok(Some(batch)));
                  break;
                }
              },
              Some(_) => {
                want = Poll::Ready(match &end {
                  Ok(()) => Ok(None),
                  Err(e) => Err(e.clone()),
                });
                break;
              },
              None => {
                if tx.is_none() {
                  want = Poll::Ready(Ok(None));
                }
                break;
              },
            }
          }
        }
        let got = got.map(|g| g.map_err(|e| if let Error::Grpc(s) = e { Some((s.code.to_int(), s.message)) } else { None }));
        if !c.ensure(got == want, "reader", || format!("case {case}: {shape}; after {}: {} where {} was due (stopped {stopped}, {at} bytes)", log.join(", "), format!("{got:?}").chars().take(150).collect::<String>(), format!("{want:?}").chars().take(150).collect::<String>())) {
          return;
        }
        match got {
          Poll::Pending => waiting = !stopped,
          Poll::Ready(Ok(Some(m))) => {
            log.push(format!("{} read", m.len()));
            c.add("messages read by hand", m.len() as u64);
            break;
          },
          Poll::Ready(_) => {
            c.eval(Some(vh::hash_of(&(&shape, &log))));
            return;
          },
        }
        while r.chance(1, 3) {
          happen!();
        }
      }
    }
  }));
  c.count("readers");
}

pub fn run(c: &Check) {
  c.rule("a case is a stream over loopback or a reader polled by hand; distinct by shape and history");
  c.assume("loopback TCP and the HTTP/2 stack of the registry, with stand-ins for the crates want and snap");
  // SAFETY: what still runs when this returns is a spinning reader, and the process ends.
  let c: &'static Check = unsafe { &*std::ptr::from_ref(c) };
  let spins = std::cell::Cell::new(false);
  c.cases(c.n(1_400, 1_000_000), Duration::from_secs(c.n(14, 900)), |case, r| match case % 4 {
    _ if spins.get() => {},
    0 => net::block(c, case, downstream(c, r, case)),
    1 => net::block(c, case, both_ways(c, r, case)),
    _ => {
      // On a thread of its own: a reader that spins is left behind.
      let mut own = r.fork();
      let (tx, rx) = std_mpsc::channel();
      std::thread::spawn(move || {
        let e = vh::no_panic(|| {
          for _ in 0 .. 4 {
            reader(c, &mut own, case);
          }
        });
        let _ = tx.send(e);
      });
      match rx.recv_timeout(Duration::from_secs(60)) {
        Ok(Ok(())) => {},
        Ok(Err(e)) => c.violation("panic", &format!("case {case}: {e}")),
        Err(_) => {
          spins.set(true);
          c.violation("spins", &format!("case {case}: one poll of a reader has not returned after 60 s"));
        },
      }
    },
  });
}

//! Stand-in for the `want` crate (back-pressure signal between two tasks), same interface.
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
  Idle,
  Want,
  Give,
  Closed,
}

struct Inner {
  state: State,
  waker: Option<Waker>,
}

pub struct Giver {
  inner: Arc<Mutex<Inner>>,
}

pub struct Taker {
  inner: Arc<Mutex<Inner>>,
}

#[derive(Clone)]
pub struct SharedGiver {
  inner: Arc<Mutex<Inner>>,
}

pub struct Closed {
  _inner: (),
}

#[must_use]
pub fn new() -> (Giver, Taker) {
  let inner = Arc::new(Mutex::new(Inner { state: State::Idle, waker: None }));
  (Giver { inner: inner.clone() }, Taker { inner })
}

impl Giver {
  pub fn want(&mut self) -> impl Future<Output = Result<(), Closed>> + '_ {
    Want(self)
  }

  pub fn poll_want(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Closed>> {
    let mut inner = self.inner.lock().unwrap();
    match inner.state {
      State::Want => Poll::Ready(Ok(())),
      State::Closed => Poll::Ready(Err(Closed { _inner: () })),
      State::Idle | State::Give => {
        inner.state = State::Give;
        inner.waker = Some(cx.waker().clone());
        Poll::Pending
      },
    }
  }

  pub fn give(&self) -> bool {
    let mut inner = self.inner.lock().unwrap();
    let wanted = inner.state == State::Want;
    if wanted {
      inner.state = State::Idle;
    }
    wanted
  }

  pub fn is_wanting(&self) -> bool {
    self.inner.lock().unwrap().state == State::Want
  }

  pub fn is_canceled(&self) -> bool {
    self.inner.lock().unwrap().state == State::Closed
  }

  pub fn shared(self) -> SharedGiver {
    SharedGiver { inner: self.inner }
  }
}

struct Want<'a>(&'a mut Giver);

impl Future for Want<'_> {
  type Output = Result<(), Closed>;
  fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
    self.0.poll_want(cx)
  }
}

impl SharedGiver {
  pub fn is_wanting(&self) -> bool {
    self.inner.lock().unwrap().state == State::Want
  }

  pub fn is_canceled(&self) -> bool {
    self.inner.lock().unwrap().state == State::Closed
  }
}

impl Taker {
  pub fn cancel(&mut self) {
    self.signal(State::Closed);
  }

  pub fn want(&mut self) {
    self.signal(State::Want);
  }

  fn signal(&self, state: State) {
    let waker = {
      let mut inner = self.inner.lock().unwrap();
      inner.state = state;
      inner.waker.take()
    };
    if let Some(waker) = waker {
      waker.wake();
    }
  }
}

impl Drop for Taker {
  fn drop(&mut self) {
    self.signal(State::Closed);
  }
}

impl Closed {
  #[must_use]
  pub fn new() -> Self {
    Self { _inner: () }
  }
}

impl Default for Closed {
  fn default() -> Self {
    Self::new()
  }
}

macro_rules! debug {
  ($($n:ident)*) => { $(impl fmt::Debug for $n {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(stringify!($n)) }
  })* };
}
debug!(Giver Taker SharedGiver Closed);

impl fmt::Display for Closed {
  fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
    f.write_str("closed")
  }
}

impl std::error::Error for Closed {}

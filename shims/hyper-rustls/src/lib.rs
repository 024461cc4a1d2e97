//! The connector builder of hyper-rustls for plain connections: TLS is not on this machine.
use http::Uri;
use std::task::{Context, Poll};
use tower_service::Service;

#[derive(Clone)]
pub struct HttpsConnector<T>(T);

impl<T: Service<Uri>> Service<Uri> for HttpsConnector<T> {
  type Error = T::Error;
  type Future = T::Future;
  type Response = T::Response;

  fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
    self.0.poll_ready(cx)
  }

  fn call(&mut self, uri: Uri) -> Self::Future {
    self.0.call(uri)
  }
}

#[derive(Default)]
pub struct HttpsConnectorBuilder;

impl HttpsConnectorBuilder {
  pub fn new() -> Self {
    Self
  }
  pub fn with_webpki_roots(self) -> Self {
    self
  }
  pub fn https_or_http(self) -> Self {
    self
  }
  pub fn https_only(self) -> Self {
    self
  }
  pub fn enable_http1(self) -> Self {
    self
  }
  pub fn enable_http2(self) -> Self {
    self
  }
  pub fn enable_all_versions(self) -> Self {
    self
  }
  pub fn wrap_connector<T>(self, t: T) -> HttpsConnector<T> {
    HttpsConnector(t)
  }
}

//! TLS double: the handshake succeeds or fails as the harness decides, and the
//! data passes through as it is.
use std::future::Future;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

extern "Rust" {
  fn __double_tls(cx: &mut Context<'_>) -> Poll<io::Result<()>>;
  fn __double_tls_start(name: &str, roots: &[Vec<u8>]);
  fn __double_secure(on: bool);
  fn __double_cert(cert: &[u8]) -> bool;
}

pub mod rustls {
  use std::fmt;

  #[derive(Debug, Clone, PartialEq, Eq)]
  #[non_exhaustive]
  pub enum Error {
    InvalidCertificate(CertificateError),
    DecryptError,
    EncryptError,
    AlertReceived,
    UnsupportedNameType,
    NoCertificatesPresented,
    General(String),
    FailedToGetCurrentTime,
    FailedToGetRandomBytes,
    HandshakeNotComplete,
    BadMaxFragmentSize,
  }
  #[derive(Debug, Clone, PartialEq, Eq)]
  #[non_exhaustive]
  pub enum CertificateError {
    BadEncoding,
    Expired,
    NotValidYet,
    Revoked,
    UnknownIssuer,
    BadSignature,
    NotValidForName,
    InvalidPurpose,
    ApplicationVerificationFailure,
  }
  impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
      f.write_str("tls error")
    }
  }
  impl std::error::Error for Error {}

  pub mod client {
    #[derive(Debug)]
    pub struct InvalidDnsNameError;
    impl std::fmt::Display for InvalidDnsNameError {
      fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("invalid dns name")
      }
    }
    impl std::error::Error for InvalidDnsNameError {}
    pub use super::{ClientConfig, ServerName};
  }

  #[derive(Clone, Debug, PartialEq, Eq, Hash)]
  pub struct ServerName(pub(crate) String);
  impl TryFrom<&str> for ServerName {
    type Error = client::InvalidDnsNameError;
    fn try_from(name: &str) -> Result<Self, Self::Error> {
      if name.is_empty() {
        return Err(client::InvalidDnsNameError);
      }
      Ok(ServerName(name.to_string()))
    }
  }

  #[derive(Clone, Debug, PartialEq, Eq)]
  pub struct Certificate(pub Vec<u8>);

  #[derive(Clone, Debug)]
  pub struct RootCertStore(pub(crate) Vec<Vec<u8>>);
  impl RootCertStore {
    pub fn empty() -> Self {
      RootCertStore(Vec::new())
    }
    pub fn add(&mut self, cert: &Certificate) -> Result<(), Error> {
      if !unsafe { super::__double_cert(&cert.0) } {
        return Err(Error::InvalidCertificate(CertificateError::BadEncoding));
      }
      self.0.push(cert.0.clone());
      Ok(())
    }
    pub fn add_parsable_certificates(&mut self, certs: &[impl AsRef<[u8]>]) -> (usize, usize) {
      let n = self.0.len();
      for c in certs {
        let _ = self.add(&Certificate(c.as_ref().to_vec()));
      }
      (self.0.len() - n, certs.len() - (self.0.len() - n))
    }
    pub fn len(&self) -> usize {
      self.0.len()
    }
    pub fn is_empty(&self) -> bool {
      self.0.is_empty()
    }
  }

  #[derive(Clone, Debug)]
  pub struct ClientConfig {
    pub(crate) roots: Vec<Vec<u8>>,
  }
  pub struct ConfigBuilder(Vec<Vec<u8>>);
  impl ClientConfig {
    pub fn builder() -> ConfigBuilder {
      ConfigBuilder(Vec::new())
    }
  }
  impl ConfigBuilder {
    pub fn with_safe_defaults(self) -> Self {
      self
    }
    pub fn with_root_certificates(self, roots: impl Into<std::sync::Arc<RootCertStore>>) -> Self {
      ConfigBuilder(roots.into().0.clone())
    }
    pub fn with_no_client_auth(self) -> ClientConfig {
      ClientConfig { roots: self.0 }
    }
  }
}

#[derive(Clone)]
pub struct TlsConnector(Arc<rustls::ClientConfig>);
impl From<Arc<rustls::ClientConfig>> for TlsConnector {
  fn from(config: Arc<rustls::ClientConfig>) -> Self {
    TlsConnector(config)
  }
}
impl TlsConnector {
  pub fn connect<IO>(&self, name: rustls::ServerName, stream: IO) -> Connect<IO>
  where
    IO: AsyncRead + AsyncWrite + Unpin,
  {
    unsafe { __double_tls_start(&name.0, &self.0.roots) };
    Connect(Some(stream))
  }
}

pub struct Connect<IO>(Option<IO>);
impl<IO: Unpin> Future for Connect<IO> {
  type Output = io::Result<client::TlsStream<IO>>;
  fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
    match unsafe { __double_tls(cx) } {
      Poll::Ready(Ok(())) => Poll::Ready(Ok(client::TlsStream { io: self.0.take().unwrap() })),
      Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
      Poll::Pending => Poll::Pending,
    }
  }
}

pub mod client {
  use super::*;

  #[derive(Debug)]
  pub struct TlsStream<IO> {
    pub(crate) io: IO,
  }
  impl<IO> TlsStream<IO> {
    fn secure<T>(&mut self, f: impl FnOnce(Pin<&mut IO>) -> T) -> T
    where
      IO: Unpin,
    {
      unsafe { __double_secure(true) };
      let r = f(Pin::new(&mut self.io));
      unsafe { __double_secure(false) };
      r
    }
    pub fn into_inner(self) -> (IO, ()) {
      (self.io, ())
    }
    pub fn get_mut(&mut self) -> (&mut IO, ()) {
      (&mut self.io, ())
    }
    pub fn get_ref(&self) -> (&IO, ()) {
      (&self.io, ())
    }
  }
  impl<IO: AsyncRead + Unpin> AsyncRead for TlsStream<IO> {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
      self.secure(|io| io.poll_read(cx, buf))
    }
  }
  impl<IO: AsyncWrite + Unpin> AsyncWrite for TlsStream<IO> {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
      self.secure(|io| io.poll_write(cx, buf))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
      self.secure(|io| io.poll_flush(cx))
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
      self.secure(|io| io.poll_shutdown(cx))
    }
  }
}

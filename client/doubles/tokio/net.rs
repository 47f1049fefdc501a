//! Network double: connections are made, read and written by the harness.
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};

extern "Rust" {
    fn __double_attempt(host: &str, port: u16);
    fn __double_connect(cx: &mut Context<'_>) -> Poll<io::Result<usize>>;
    fn __double_read(cx: &mut Context<'_>, id: usize, buf: &mut [u8]) -> Poll<io::Result<usize>>;
    fn __double_write(cx: &mut Context<'_>, id: usize, buf: &[u8]) -> Poll<io::Result<usize>>;
    fn __double_flush(cx: &mut Context<'_>, id: usize) -> Poll<io::Result<()>>;
    fn __double_close(id: usize);
}

/// Addresses are not resolved.
pub trait ToSocketAddrs {
    fn target(&self) -> (String, u16);
}
impl ToSocketAddrs for (&str, u16) {
    fn target(&self) -> (String, u16) {
        (self.0.to_string(), self.1)
    }
}
impl ToSocketAddrs for (String, u16) {
    fn target(&self) -> (String, u16) {
        (self.0.clone(), self.1)
    }
}
impl ToSocketAddrs for (std::net::IpAddr, u16) {
    fn target(&self) -> (String, u16) {
        (self.0.to_string(), self.1)
    }
}
impl ToSocketAddrs for std::net::SocketAddr {
    fn target(&self) -> (String, u16) {
        (self.ip().to_string(), self.port())
    }
}
impl ToSocketAddrs for str {
    fn target(&self) -> (String, u16) {
        match self.rsplit_once(':') {
            Some((host, port)) => (host.to_string(), port.parse().unwrap_or(0)),
            None => (self.to_string(), 0),
        }
    }
}
impl ToSocketAddrs for String {
    fn target(&self) -> (String, u16) {
        self[..].target()
    }
}
impl<T: ToSocketAddrs + ?Sized> ToSocketAddrs for &T {
    fn target(&self) -> (String, u16) {
        (**self).target()
    }
}

#[derive(Debug)]
pub struct TcpStream {
    id: usize,
}

impl TcpStream {
    pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
        let (host, port) = addr.target();
        unsafe { __double_attempt(&host, port) };
        std::future::poll_fn(|cx| unsafe { __double_connect(cx) })
            .await
            .map(|id| TcpStream { id })
    }

    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
}

impl Drop for TcpStream {
    fn drop(&mut self) {
        unsafe { __double_close(self.id) }
    }
}

impl AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        match unsafe { __double_read(cx, self.id, buf.initialize_unfilled()) } {
            Poll::Ready(Ok(n)) => {
                buf.advance(n);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}

impl AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        unsafe { __double_write(cx, self.id, buf) }
    }

    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        unsafe { __double_flush(cx, self.id) }
    }

    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}

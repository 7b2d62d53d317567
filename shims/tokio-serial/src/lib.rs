//! `tokio_serial` on a simulated serial device.
use plusendi::real_tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use plusendi::sim::net::Endpoint;
use std::io;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

pub type Result<T> = io::Result<T>;

#[derive(Clone, Debug)]
pub struct SerialPortBuilder {
    path: String,
    baud: u32,
}

pub fn new<'a>(path: impl Into<std::borrow::Cow<'a, str>>, baud: u32) -> SerialPortBuilder {
    SerialPortBuilder { path: path.into().into_owned(), baud }
}

impl SerialPortBuilder {
    pub fn path<'a>(mut self, path: impl Into<std::borrow::Cow<'a, str>>) -> Self {
        self.path = path.into().into_owned();
        self
    }
    pub fn baud_rate(mut self, baud: u32) -> Self {
        self.baud = baud;
        self
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
}

pub trait SerialPortBuilderExt {
    fn open_native_async(self) -> Result<SerialStream>;
}

impl SerialPortBuilderExt for SerialPortBuilder {
    fn open_native_async(self) -> Result<SerialStream> {
        SerialStream::open(&self)
    }
}

#[derive(Debug)]
pub struct SerialStream(Endpoint);

impl SerialStream {
    pub fn open(builder: &SerialPortBuilder) -> Result<Self> {
        Ok(Self(Endpoint::device(&format!("serial:{}:{}", builder.path, builder.baud))?))
    }
    pub fn set_exclusive(&mut self, _: bool) -> Result<()> {
        Ok(())
    }
}

impl AsyncRead for SerialStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        self.0.poll_read(cx, buf)
    }
}

impl AsyncWrite for SerialStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.0.poll_write(cx, &[io::IoSlice::new(buf)])
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

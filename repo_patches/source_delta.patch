From 8b1fb2967a13a5f803959fe27a4ea1eceb90ad1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 01/37] sim: deterministic simulation seam behind
 cfg(plusendi_sim), off by default

---
 src/fbb.rs              |   4 +
 src/lib.rs              |  12 ++
 src/lzhuf.rs            |   4 +
 src/sim/access_fbb.rs   |  37 +++++
 src/sim/access_lzhuf.rs |  17 +++
 src/sim/io_shim.rs      |  41 ++++++
 src/sim/mod.rs          | 105 ++++++++++++++
 src/sim/net.rs          | 262 +++++++++++++++++++++++++++++++++++
 src/sim/sync.rs         | 293 ++++++++++++++++++++++++++++++++++++++++
 src/sim/task.rs         | 148 ++++++++++++++++++++
 src/sim/time.rs         | 118 ++++++++++++++++
 11 files changed, 1041 insertions(+)
 create mode 100644 src/sim/access_fbb.rs
 create mode 100644 src/sim/access_lzhuf.rs
 create mode 100644 src/sim/io_shim.rs
 create mode 100644 src/sim/mod.rs
 create mode 100644 src/sim/net.rs
 create mode 100644 src/sim/sync.rs
 create mode 100644 src/sim/task.rs
 create mode 100644 src/sim/time.rs

diff --git a/src/fbb.rs b/src/fbb.rs
index 4e58cbb..d20fe76 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -351,6 +351,10 @@ impl<'a> BqpProposalExtension<'a> {
     }
 }
 
+#[cfg(plusendi_sim)]
+#[path = "sim/access_fbb.rs"]
+pub mod sim_access;
+
 #[cfg(test)]
 mod tests {
     use test_log::test;
diff --git a/src/lib.rs b/src/lib.rs
index dd1adf7..8c2a711 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,6 +8,18 @@ mod lzhuf;
 mod types;
 mod parser;
 
+// Deterministic simulation (off by default): see src/sim/mod.rs.
+#[cfg(plusendi_sim)]
+pub mod sim;
+#[cfg(plusendi_sim)]
+#[doc(hidden)]
+pub extern crate tokio as real_tokio;
+#[cfg(plusendi_sim)]
+extern crate self as tokio;
+#[cfg(plusendi_sim)]
+#[doc(hidden)]
+pub use sim::tokio_root::*;
+
 pub use modem::Modem;
 pub use types::{StationId, StationIdRef};
 
diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b807f61..6dd49b6 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -758,6 +758,10 @@ const DECODE_LEN: [u8; 256] = [
     0x08, 0x08, 0x08, 0x08, 0x08, 0x08, 0x08, 0x08,
 ];
 
+#[cfg(plusendi_sim)]
+#[path = "sim/access_lzhuf.rs"]
+pub mod sim_access;
+
 #[cfg(test)]
 mod tests2 {
     use super::*;
diff --git a/src/sim/access_fbb.rs b/src/sim/access_fbb.rs
new file mode 100644
index 0000000..8885928
--- /dev/null
+++ b/src/sim/access_fbb.rs
@@ -0,0 +1,37 @@
+//! Access to the private message receiver, for the simulator only.
+
+use super::*;
+
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub enum Received {
+    /// More bytes are needed; the receiver's estimate of how many, if it has one.
+    Incomplete(Option<usize>),
+    Rejected,
+    Accepted {
+        consumed: usize,
+        title: String,
+        offset: u32,
+        crc16: u16,
+        uncompressed_size: u32,
+        data: Vec<u8>,
+        /// What decompressing it gave (`None`: end-of-data error); only if asked for.
+        message: Option<Option<Vec<u8>>>,
+    },
+}
+
+pub fn receive(data: &[u8], decompress: bool) -> Received {
+    match b2_message_block(data) {
+        Ok((rest, m)) => Received::Accepted {
+            consumed: data.len() - rest.len(),
+            title: m.title.to_owned(),
+            offset: m.offset,
+            crc16: m.crc16,
+            uncompressed_size: m.uncompressed_size,
+            data: m.blocks.concat(),
+            message: if decompress { Some(m.decompress().ok()) } else { None },
+        },
+        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Received::Incomplete(Some(n.get())),
+        Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Received::Incomplete(None),
+        Err(_) => Received::Rejected,
+    }
+}
diff --git a/src/sim/access_lzhuf.rs b/src/sim/access_lzhuf.rs
new file mode 100644
index 0000000..7cd3a66
--- /dev/null
+++ b/src/sim/access_lzhuf.rs
@@ -0,0 +1,17 @@
+//! Access to the private codec, for the simulator only.
+
+use super::*;
+
+pub fn encode(data: &[u8]) -> Vec<u8> {
+    let mut output = Vec::new();
+    let mut encoder = Encoder::new(&mut output);
+    encoder.encode(data.iter().copied());
+    encoder.finish();
+    output
+}
+
+pub fn decode(data: &[u8], size: usize) -> Option<Vec<u8>> {
+    let mut buffer = vec![0; size];
+    Decoder::new(data.iter().copied()).decode(&mut buffer).ok()?;
+    Some(buffer)
+}
diff --git a/src/sim/io_shim.rs b/src/sim/io_shim.rs
new file mode 100644
index 0000000..d201bcd
--- /dev/null
+++ b/src/sim/io_shim.rs
@@ -0,0 +1,41 @@
+//! `tokio::io` with the standard streams simulated.
+
+pub use crate::real_tokio::io::*;
+
+use crate::sim::net::Endpoint;
+use std::io;
+use std::pin::Pin;
+use std::task::{Context, Poll};
+
+macro_rules! std_stream {
+    ($ty:ident, $f:ident, $name:literal) => {
+        #[derive(Debug)]
+        pub struct $ty(Endpoint);
+
+        pub fn $f() -> $ty {
+            $ty(Endpoint::device($name).unwrap())
+        }
+
+        impl AsyncRead for $ty {
+            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
+                self.0.poll_read(cx, buf)
+            }
+        }
+
+        impl AsyncWrite for $ty {
+            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
+                self.0.poll_write(cx, &[io::IoSlice::new(buf)])
+            }
+            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
+                Poll::Ready(Ok(()))
+            }
+            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
+                Poll::Ready(Ok(()))
+            }
+        }
+    };
+}
+
+std_stream!(Stdin, stdin, "stdin");
+std_stream!(Stdout, stdout, "stdout");
+std_stream!(Stderr, stderr, "stderr");
diff --git a/src/sim/mod.rs b/src/sim/mod.rs
new file mode 100644
index 0000000..a1f1d13
--- /dev/null
+++ b/src/sim/mod.rs
@@ -0,0 +1,105 @@
+//! Deterministic-simulation seam. Compiled only with `--cfg plusendi_sim`; without that flag
+//! nothing in this directory exists and the crate talks to the real tokio.
+//!
+//! With the flag, the name `tokio` inside this crate means [`tokio_root`]: the real tokio with
+//! its sources of nondeterminism (sockets, task spawning, timers, the random branch order of
+//! `select!`) replaced by calls into a [`World`] that a simulator installs per thread. The
+//! channel types are the real ones, wrapped so that every operation is a point at which the
+//! simulator may let another task run, as on a multi-threaded runtime.
+
+use std::cell::{Cell, RefCell};
+use std::future::Future;
+use std::io;
+use std::net::SocketAddr;
+use std::pin::Pin;
+use std::rc::Rc;
+use std::task::{Context, Poll};
+use std::time::Instant;
+
+pub mod io_shim;
+pub mod net;
+pub mod sync;
+pub mod task;
+pub mod time;
+
+pub use crate::fbb::sim_access as fbb;
+pub use crate::lzhuf::sim_access as lzhuf;
+
+/// Everything nondeterministic that this crate can meet. Endpoints are numbered by the world.
+pub trait World {
+    fn dial(&self, addr: SocketAddr) -> u64;
+    fn poll_dialed(&self, endpoint: u64, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
+    fn open_device(&self, name: &str) -> io::Result<u64>;
+    fn poll_read_ready(&self, endpoint: u64, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
+    fn poll_write_ready(&self, endpoint: u64, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
+    fn try_read(&self, endpoint: u64, buf: &mut [u8], peek: bool) -> io::Result<usize>;
+    fn try_write(&self, endpoint: u64, bufs: &[io::IoSlice<'_>]) -> io::Result<usize>;
+    fn shutdown(&self, endpoint: u64) -> io::Result<()>;
+    fn close(&self, endpoint: u64);
+    fn spawn(&self, task: Pin<Box<dyn Future<Output = ()> + Send>>) -> u64;
+    fn abort(&self, task: u64);
+    fn poll_timer(&self, timer: &mut u64, deadline: Instant, cx: &mut Context<'_>) -> Poll<()>;
+    fn cancel_timer(&self, timer: u64);
+    /// The branch a `select!` of `n` branches looks at first.
+    fn select_start(&self, n: u32) -> u32;
+    /// Another task may run here.
+    fn preempt(&self);
+    /// The program wrote a line to its standard output.
+    fn print(&self, text: String);
+    /// The program's command line.
+    fn arguments(&self) -> Vec<String>;
+}
+
+thread_local! {
+    static WORLD: RefCell<Option<Rc<dyn World>>> = const { RefCell::new(None) };
+    static HELD: Cell<u32> = const { Cell::new(0) };
+}
+
+/// Installs (or removes) the world of this thread and returns the previous one.
+pub fn install(world: Option<Rc<dyn World>>) -> Option<Rc<dyn World>> {
+    WORLD.with(|w| std::mem::replace(&mut *w.borrow_mut(), world))
+}
+
+pub fn try_world() -> Option<Rc<dyn World>> {
+    WORLD.try_with(|w| w.borrow().clone()).ok().flatten()
+}
+
+pub fn world() -> Rc<dyn World> {
+    try_world().expect("no simulated world on this thread")
+}
+
+/// A scheduling point, unless this task holds a borrow that a real thread would be blocked on.
+pub fn op() {
+    if HELD.with(|h| h.get()) == 0 {
+        if let Some(w) = try_world() {
+            w.preempt();
+        }
+    }
+}
+
+pub(crate) fn hold(by: i32) {
+    let _ = HELD.try_with(|h| h.set((h.get() as i32 + by) as u32));
+}
+
+pub fn select_start(n: u32) -> u32 {
+    world().select_start(n)
+}
+
+#[doc(hidden)]
+#[macro_export]
+macro_rules! sim_select {
+    (biased; $($t:tt)*) => { $crate::real_tokio::select!(@{ start=0; () } $($t)*) };
+    ($($t:tt)*) => { $crate::real_tokio::select!(@{ start={ $crate::sim::select_start(BRANCHES) }; () } $($t)*) };
+}
+
+/// What `tokio` means inside this crate under simulation.
+pub mod tokio_root {
+    pub use crate::real_tokio::*;
+    pub use crate::sim::io_shim as io;
+    pub use crate::sim::net;
+    pub use crate::sim::sync;
+    pub use crate::sim::task;
+    pub use crate::sim::task::spawn;
+    pub use crate::sim::time;
+    pub use crate::sim_select as select;
+}
diff --git a/src/sim/net.rs b/src/sim/net.rs
new file mode 100644
index 0000000..b5e781d
--- /dev/null
+++ b/src/sim/net.rs
@@ -0,0 +1,262 @@
+//! `tokio::net` with a simulated `TcpStream`.
+
+pub use crate::real_tokio::net::*;
+
+use crate::real_tokio::io::{AsyncRead, AsyncWrite, Interest, ReadBuf, Ready};
+use crate::sim::{op, try_world, world};
+use std::future::poll_fn;
+use std::io;
+use std::net::SocketAddr;
+use std::pin::Pin;
+use std::sync::Arc;
+use std::task::{Context, Poll};
+
+/// A numbered endpoint of the simulated world, closed on drop.
+#[derive(Debug)]
+pub struct Endpoint {
+    id: u64,
+}
+
+impl Endpoint {
+    pub fn device(name: &str) -> io::Result<Self> {
+        Ok(Self { id: world().open_device(name)? })
+    }
+
+    pub fn id(&self) -> u64 {
+        self.id
+    }
+
+    pub fn poll_read(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
+        op();
+        loop {
+            match world().try_read(self.id, buf.initialize_unfilled(), false) {
+                Ok(n) => {
+                    buf.advance(n);
+                    return Poll::Ready(Ok(()));
+                }
+                Err(e) if e.kind() == io::ErrorKind::WouldBlock => match world().poll_read_ready(self.id, cx) {
+                    Poll::Ready(Ok(())) => continue,
+                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+                    Poll::Pending => return Poll::Pending,
+                },
+                Err(e) => return Poll::Ready(Err(e)),
+            }
+        }
+    }
+
+    pub fn poll_write(&self, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
+        op();
+        loop {
+            match world().try_write(self.id, bufs) {
+                Err(e) if e.kind() == io::ErrorKind::WouldBlock => match world().poll_write_ready(self.id, cx) {
+                    Poll::Ready(Ok(())) => continue,
+                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+                    Poll::Pending => return Poll::Pending,
+                },
+                other => return Poll::Ready(other),
+            }
+        }
+    }
+}
+
+impl Drop for Endpoint {
+    fn drop(&mut self) {
+        if let Some(w) = try_world() {
+            w.close(self.id);
+        }
+    }
+}
+
+#[derive(Debug)]
+pub struct TcpStream {
+    end: Endpoint,
+    peer: SocketAddr,
+}
+
+impl TcpStream {
+    pub async fn connect<A: std::net::ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
+        let mut last = None;
+        for peer in addr.to_socket_addrs()? {
+            op();
+            let end = Endpoint { id: world().dial(peer) };
+            match poll_fn(|cx| world().poll_dialed(end.id, cx)).await {
+                Ok(()) => return Ok(TcpStream { end, peer }),
+                Err(e) => last = Some(e),
+            }
+        }
+        Err(last.unwrap_or_else(|| io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")))
+    }
+
+    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
+        Ok(self.peer)
+    }
+
+    pub fn local_addr(&self) -> io::Result<SocketAddr> {
+        Ok(SocketAddr::from(([127, 0, 0, 1], 40000)))
+    }
+
+    pub fn nodelay(&self) -> io::Result<bool> {
+        Ok(false)
+    }
+
+    pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
+        Ok(())
+    }
+
+    pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
+        Ok(())
+    }
+
+    pub async fn readable(&self) -> io::Result<()> {
+        poll_fn(|cx| self.poll_read_ready(cx)).await
+    }
+
+    pub async fn writable(&self) -> io::Result<()> {
+        poll_fn(|cx| self.poll_write_ready(cx)).await
+    }
+
+    pub async fn ready(&self, interest: Interest) -> io::Result<Ready> {
+        poll_fn(|cx| {
+            let mut ready = Ready::EMPTY;
+            if interest.is_readable() {
+                if let Poll::Ready(r) = self.poll_read_ready(cx) {
+                    r?;
+                    ready = ready | Ready::READABLE;
+                }
+            }
+            if interest.is_writable() {
+                if let Poll::Ready(r) = self.poll_write_ready(cx) {
+                    r?;
+                    ready = ready | Ready::WRITABLE;
+                }
+            }
+            if ready.is_empty() { Poll::Pending } else { Poll::Ready(Ok(ready)) }
+        })
+        .await
+    }
+
+    pub fn poll_read_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        op();
+        world().poll_read_ready(self.end.id, cx)
+    }
+
+    pub fn poll_write_ready(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
+        op();
+        world().poll_write_ready(self.end.id, cx)
+    }
+
+    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
+        op();
+        world().try_read(self.end.id, buf, false)
+    }
+
+    pub fn try_read_vectored(&self, bufs: &mut [io::IoSliceMut<'_>]) -> io::Result<usize> {
+        match bufs.iter_mut().find(|b| !b.is_empty()) {
+            Some(b) => self.try_read(b),
+            None => Ok(0),
+        }
+    }
+
+    pub fn try_read_buf<B: bytes::BufMut>(&self, buf: &mut B) -> io::Result<usize> {
+        op();
+        let room = buf.chunk_mut().len();
+        let mut data = vec![0; room];
+        let n = world().try_read(self.end.id, &mut data, false)?;
+        buf.put_slice(&data[..n]);
+        Ok(n)
+    }
+
+    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
+        op();
+        world().try_write(self.end.id, &[io::IoSlice::new(buf)])
+    }
+
+    pub fn try_write_vectored(&self, bufs: &[io::IoSlice<'_>]) -> io::Result<usize> {
+        op();
+        world().try_write(self.end.id, bufs)
+    }
+
+    pub async fn peek(&self, buf: &mut [u8]) -> io::Result<usize> {
+        loop {
+            self.readable().await?;
+            match world().try_read(self.end.id, buf, true) {
+                Err(e) if e.kind() == io::ErrorKind::WouldBlock => continue,
+                other => return other,
+            }
+        }
+    }
+
+    pub fn poll_peek(&self, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<usize>> {
+        loop {
+            match self.poll_read_ready(cx) {
+                Poll::Ready(Ok(())) => {}
+                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
+                Poll::Pending => return Poll::Pending,
+            }
+            match world().try_read(self.end.id, buf.initialize_unfilled(), true) {
+                Err(e) if e.kind() == io::ErrorKind::WouldBlock => continue,
+                Ok(n) => {
+                    buf.advance(n);
+                    return Poll::Ready(Ok(n));
+                }
+                Err(e) => return Poll::Ready(Err(e)),
+            }
+        }
+    }
+
+    pub fn split(&mut self) -> (&TcpStream, &TcpStream) {
+        (self, self)
+    }
+
+    pub fn into_split(self) -> (OwnedHalf, OwnedHalf) {
+        let shared = Arc::new(self);
+        (OwnedHalf(shared.clone()), OwnedHalf(shared))
+    }
+}
+
+/// Either half of a split stream; the connection closes when both are gone.
+#[derive(Debug)]
+pub struct OwnedHalf(Arc<TcpStream>);
+
+impl std::ops::Deref for OwnedHalf {
+    type Target = TcpStream;
+    fn deref(&self) -> &TcpStream {
+        &self.0
+    }
+}
+
+macro_rules! stream_io {
+    ($ty:ty, $s:ident => $end:expr) => {
+        impl AsyncRead for $ty {
+            fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
+                let $s = &*self;
+                $end.poll_read(cx, buf)
+            }
+        }
+
+        impl AsyncWrite for $ty {
+            fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
+                let $s = &*self;
+                $end.poll_write(cx, &[io::IoSlice::new(buf)])
+            }
+            fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
+                let $s = &*self;
+                $end.poll_write(cx, bufs)
+            }
+            fn is_write_vectored(&self) -> bool {
+                true
+            }
+            fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
+                Poll::Ready(Ok(()))
+            }
+            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
+                let $s = &*self;
+                Poll::Ready(world().shutdown($end.id))
+            }
+        }
+    };
+}
+
+stream_io!(TcpStream, s => s.end);
+stream_io!(&TcpStream, s => s.end);
+stream_io!(OwnedHalf, s => s.0.end);
diff --git a/src/sim/sync.rs b/src/sim/sync.rs
new file mode 100644
index 0000000..0763bae
--- /dev/null
+++ b/src/sim/sync.rs
@@ -0,0 +1,293 @@
+//! `tokio::sync`: the real channels, with a scheduling point at every operation.
+
+pub use crate::real_tokio::sync::*;
+
+pub mod watch {
+    pub use crate::real_tokio::sync::watch::error;
+
+    use crate::real_tokio::sync::watch as real;
+    use crate::sim::{hold, op};
+    use std::ops::Deref;
+
+    #[derive(Debug)]
+    pub struct Sender<T>(real::Sender<T>);
+
+    #[derive(Debug)]
+    pub struct Receiver<T>(real::Receiver<T>);
+
+    #[derive(Debug)]
+    pub struct Ref<'a, T>(real::Ref<'a, T>);
+
+    impl<'a, T> Ref<'a, T> {
+        fn new(inner: real::Ref<'a, T>) -> Self {
+            hold(1);
+            Ref(inner)
+        }
+    }
+
+    impl<T> Drop for Ref<'_, T> {
+        fn drop(&mut self) {
+            hold(-1);
+        }
+    }
+
+    impl<T> Deref for Ref<'_, T> {
+        type Target = T;
+        fn deref(&self) -> &T {
+            &self.0
+        }
+    }
+
+    pub fn channel<T>(init: T) -> (Sender<T>, Receiver<T>) {
+        let (tx, rx) = real::channel(init);
+        (Sender(tx), Receiver(rx))
+    }
+
+    impl<T> Sender<T> {
+        pub fn send(&self, value: T) -> Result<(), error::SendError<T>> {
+            op();
+            let r = self.0.send(value);
+            op();
+            r
+        }
+
+        pub fn send_replace(&self, value: T) -> T {
+            op();
+            let r = self.0.send_replace(value);
+            op();
+            r
+        }
+
+        pub fn borrow(&self) -> Ref<'_, T> {
+            op();
+            Ref::new(self.0.borrow())
+        }
+
+        pub fn is_closed(&self) -> bool {
+            op();
+            self.0.is_closed()
+        }
+
+        pub async fn closed(&self) {
+            op();
+            self.0.closed().await;
+            op();
+        }
+
+        pub fn subscribe(&self) -> Receiver<T> {
+            op();
+            Receiver(self.0.subscribe())
+        }
+
+        pub fn receiver_count(&self) -> usize {
+            self.0.receiver_count()
+        }
+    }
+
+    impl<T> Receiver<T> {
+        pub fn borrow(&self) -> Ref<'_, T> {
+            op();
+            Ref::new(self.0.borrow())
+        }
+
+        pub fn borrow_and_update(&mut self) -> Ref<'_, T> {
+            op();
+            Ref::new(self.0.borrow_and_update())
+        }
+
+        pub async fn changed(&mut self) -> Result<(), error::RecvError> {
+            op();
+            let r = self.0.changed().await;
+            op();
+            r
+        }
+    }
+
+    impl<T> Clone for Receiver<T> {
+        fn clone(&self) -> Self {
+            op();
+            Receiver(self.0.clone())
+        }
+    }
+}
+
+pub mod oneshot {
+    pub use crate::real_tokio::sync::oneshot::error;
+
+    use crate::real_tokio::sync::oneshot as real;
+    use crate::sim::op;
+    use std::future::Future;
+    use std::pin::Pin;
+    use std::task::{Context, Poll};
+
+    #[derive(Debug)]
+    pub struct Sender<T>(real::Sender<T>);
+
+    #[derive(Debug)]
+    pub struct Receiver<T>(real::Receiver<T>);
+
+    pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
+        let (tx, rx) = real::channel();
+        (Sender(tx), Receiver(rx))
+    }
+
+    impl<T> Sender<T> {
+        pub fn send(self, value: T) -> Result<(), T> {
+            op();
+            let r = self.0.send(value);
+            op();
+            r
+        }
+
+        pub async fn closed(&mut self) {
+            op();
+            self.0.closed().await
+        }
+
+        pub fn is_closed(&self) -> bool {
+            op();
+            self.0.is_closed()
+        }
+
+        pub fn poll_closed(&mut self, cx: &mut Context<'_>) -> Poll<()> {
+            op();
+            self.0.poll_closed(cx)
+        }
+    }
+
+    impl<T> Receiver<T> {
+        pub fn close(&mut self) {
+            op();
+            self.0.close()
+        }
+
+        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
+            op();
+            self.0.try_recv()
+        }
+    }
+
+    impl<T> Future for Receiver<T> {
+        type Output = Result<T, error::RecvError>;
+
+        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+            op();
+            let r = Pin::new(&mut self.0).poll(cx);
+            if r.is_ready() {
+                op();
+            }
+            r
+        }
+    }
+}
+
+pub mod mpsc {
+    pub use crate::real_tokio::sync::mpsc::*;
+
+    use crate::real_tokio::sync::mpsc as real;
+    use crate::sim::op;
+    use std::fmt;
+    use std::task::{Context, Poll};
+
+    pub struct Sender<T>(real::Sender<T>);
+
+    pub struct Receiver<T>(real::Receiver<T>);
+
+    impl<T> fmt::Debug for Sender<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.write_str("Sender { .. }")
+        }
+    }
+
+    impl<T> fmt::Debug for Receiver<T> {
+        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+            f.write_str("Receiver { .. }")
+        }
+    }
+
+    pub fn channel<T>(buffer: usize) -> (Sender<T>, Receiver<T>) {
+        let (tx, rx) = real::channel(buffer);
+        (Sender(tx), Receiver(rx))
+    }
+
+    impl<T> Clone for Sender<T> {
+        fn clone(&self) -> Self {
+            Sender(self.0.clone())
+        }
+    }
+
+    impl<T> Sender<T> {
+        pub async fn send(&self, value: T) -> Result<(), error::SendError<T>> {
+            op();
+            let r = self.0.send(value).await;
+            op();
+            r
+        }
+
+        pub fn try_send(&self, value: T) -> Result<(), error::TrySendError<T>> {
+            op();
+            let r = self.0.try_send(value);
+            op();
+            r
+        }
+
+        pub async fn reserve(&self) -> Result<Permit<'_, T>, error::SendError<()>> {
+            op();
+            self.0.reserve().await
+        }
+
+        pub fn try_reserve(&self) -> Result<Permit<'_, T>, error::TrySendError<()>> {
+            op();
+            self.0.try_reserve()
+        }
+
+        pub async fn reserve_owned(self) -> Result<OwnedPermit<T>, error::SendError<()>> {
+            op();
+            self.0.reserve_owned().await
+        }
+
+        pub async fn closed(&self) {
+            op();
+            self.0.closed().await
+        }
+
+        pub fn is_closed(&self) -> bool {
+            op();
+            self.0.is_closed()
+        }
+
+        pub fn same_channel(&self, other: &Self) -> bool {
+            self.0.same_channel(&other.0)
+        }
+
+        pub fn capacity(&self) -> usize {
+            op();
+            self.0.capacity()
+        }
+    }
+
+    impl<T> Receiver<T> {
+        pub async fn recv(&mut self) -> Option<T> {
+            std::future::poll_fn(|cx| self.poll_recv(cx)).await
+        }
+
+        pub fn try_recv(&mut self) -> Result<T, error::TryRecvError> {
+            op();
+            self.0.try_recv()
+        }
+
+        pub fn close(&mut self) {
+            op();
+            self.0.close()
+        }
+
+        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<T>> {
+            op();
+            let r = self.0.poll_recv(cx);
+            if r.is_ready() {
+                op();
+            }
+            r
+        }
+    }
+}
diff --git a/src/sim/task.rs b/src/sim/task.rs
new file mode 100644
index 0000000..ca73829
--- /dev/null
+++ b/src/sim/task.rs
@@ -0,0 +1,148 @@
+//! `tokio::task` on the simulated scheduler.
+
+pub use crate::real_tokio::task::*;
+
+use crate::sim::{op, try_world, world};
+use std::fmt;
+use std::future::Future;
+use std::pin::Pin;
+use std::sync::{Arc, Mutex};
+use std::task::{Context, Poll, Waker};
+
+enum Slot<T> {
+    Running(Option<Waker>),
+    Done(Result<T, JoinError>),
+    Taken,
+}
+
+pub struct JoinError {
+    panic: bool,
+}
+
+impl JoinError {
+    pub fn is_cancelled(&self) -> bool {
+        !self.panic
+    }
+
+    pub fn is_panic(&self) -> bool {
+        self.panic
+    }
+}
+
+impl fmt::Display for JoinError {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str(if self.panic { "panic" } else { "cancelled" })
+    }
+}
+
+impl fmt::Debug for JoinError {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        write!(f, "JoinError::{}", self)
+    }
+}
+
+impl std::error::Error for JoinError {}
+
+pub struct JoinHandle<T> {
+    slot: Arc<Mutex<Slot<T>>>,
+    task: u64,
+}
+
+impl<T> fmt::Debug for JoinHandle<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("JoinHandle").field("task", &self.task).finish()
+    }
+}
+
+impl<T> JoinHandle<T> {
+    pub fn abort(&self) {
+        if let Some(w) = try_world() {
+            w.abort(self.task);
+        }
+    }
+
+    pub fn is_finished(&self) -> bool {
+        !matches!(&*self.slot.lock().unwrap(), Slot::Running(_))
+    }
+}
+
+impl<T> Unpin for JoinHandle<T> {}
+
+impl<T> Future for JoinHandle<T> {
+    type Output = Result<T, JoinError>;
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        op();
+        let mut slot = self.slot.lock().unwrap();
+        match std::mem::replace(&mut *slot, Slot::Taken) {
+            Slot::Running(_) => {
+                *slot = Slot::Running(Some(cx.waker().clone()));
+                Poll::Pending
+            }
+            Slot::Done(r) => Poll::Ready(r),
+            Slot::Taken => panic!("JoinHandle polled after completion"),
+        }
+    }
+}
+
+/// Fills the slot even if the task is dropped or panics.
+struct Finish<T>(Arc<Mutex<Slot<T>>>);
+
+impl<T> Finish<T> {
+    fn set(&self, r: Result<T, JoinError>) {
+        let old = std::mem::replace(&mut *self.0.lock().unwrap(), Slot::Done(r));
+        if let Slot::Running(Some(w)) = old {
+            w.wake();
+        }
+    }
+}
+
+impl<T> Drop for Finish<T> {
+    fn drop(&mut self) {
+        let running = matches!(&*self.0.lock().unwrap(), Slot::Running(_));
+        if running {
+            self.set(Err(JoinError { panic: std::thread::panicking() }));
+        }
+    }
+}
+
+pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
+where
+    F: Future + Send + 'static,
+    F::Output: Send + 'static,
+{
+    op();
+    let slot = Arc::new(Mutex::new(Slot::Running(None)));
+    let finish = Finish(slot.clone());
+    let task = world().spawn(Box::pin(async move {
+        let finish = finish;
+        let out = future.await;
+        finish.set(Ok(out));
+    }));
+    JoinHandle { slot, task }
+}
+
+pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
+where
+    F: FnOnce() -> R + Send + 'static,
+    R: Send + 'static,
+{
+    spawn(async move { f() })
+}
+
+pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
+    f()
+}
+
+pub async fn yield_now() {
+    let mut yielded = false;
+    std::future::poll_fn(|cx| {
+        if yielded {
+            return Poll::Ready(());
+        }
+        yielded = true;
+        cx.waker().wake_by_ref();
+        Poll::Pending
+    })
+    .await
+}
diff --git a/src/sim/time.rs b/src/sim/time.rs
new file mode 100644
index 0000000..5e2fee1
--- /dev/null
+++ b/src/sim/time.rs
@@ -0,0 +1,118 @@
+//! `tokio::time` on simulated time. `Instant` reads the clock the simulator interposes.
+
+pub use crate::real_tokio::time::{Duration, Instant};
+
+use crate::sim::{try_world, world};
+use std::fmt;
+use std::future::Future;
+use std::pin::Pin;
+use std::task::{Context, Poll};
+
+pub mod error {
+    pub use super::Elapsed;
+}
+
+#[derive(Debug, PartialEq, Eq)]
+pub struct Elapsed(());
+
+impl fmt::Display for Elapsed {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("deadline has elapsed")
+    }
+}
+
+impl std::error::Error for Elapsed {}
+
+impl From<Elapsed> for std::io::Error {
+    fn from(_: Elapsed) -> Self {
+        std::io::ErrorKind::TimedOut.into()
+    }
+}
+
+#[derive(Debug)]
+pub struct Sleep {
+    deadline: Instant,
+    timer: u64,
+}
+
+impl Sleep {
+    pub fn deadline(&self) -> Instant {
+        self.deadline
+    }
+
+    pub fn is_elapsed(&self) -> bool {
+        Instant::now() >= self.deadline
+    }
+
+    pub fn reset(mut self: Pin<&mut Self>, deadline: Instant) {
+        if let Some(w) = try_world() {
+            w.cancel_timer(self.timer);
+        }
+        self.timer = 0;
+        self.deadline = deadline;
+    }
+}
+
+impl Future for Sleep {
+    type Output = ();
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
+        let deadline = self.deadline.into_std();
+        world().poll_timer(&mut self.timer, deadline, cx)
+    }
+}
+
+impl Drop for Sleep {
+    fn drop(&mut self) {
+        if let Some(w) = try_world() {
+            w.cancel_timer(self.timer);
+        }
+    }
+}
+
+pub fn sleep(duration: Duration) -> Sleep {
+    sleep_until(Instant::now() + duration)
+}
+
+pub fn sleep_until(deadline: Instant) -> Sleep {
+    Sleep { deadline, timer: 0 }
+}
+
+pub async fn timeout<F: Future>(duration: Duration, future: F) -> Result<F::Output, Elapsed> {
+    timeout_at(Instant::now() + duration, future).await
+}
+
+pub async fn timeout_at<F: Future>(deadline: Instant, future: F) -> Result<F::Output, Elapsed> {
+    let mut future = Box::pin(future);
+    let mut sleep = sleep_until(deadline);
+    std::future::poll_fn(|cx| {
+        if let Poll::Ready(out) = future.as_mut().poll(cx) {
+            return Poll::Ready(Ok(out));
+        }
+        Pin::new(&mut sleep).poll(cx).map(|()| Err(Elapsed(())))
+    })
+    .await
+}
+
+#[derive(Debug)]
+pub struct Interval {
+    next: Instant,
+    period: Duration,
+}
+
+impl Interval {
+    pub async fn tick(&mut self) -> Instant {
+        let at = self.next;
+        sleep_until(at).await;
+        self.next = at + self.period;
+        at
+    }
+}
+
+pub fn interval(period: Duration) -> Interval {
+    interval_at(Instant::now(), period)
+}
+
+pub fn interval_at(start: Instant, period: Duration) -> Interval {
+    Interval { next: start, period }
+}
-- 
2.43.0


From 2e2bcde987c540b687d7cf4974c27c56088d5bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 02/37] fix: understand modem reports about callsigns with an
 SSID

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1fb387c..f8502f2 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -33,7 +33,7 @@ impl aliri_braid::Normalizer for StationId {
 }
 
 pub fn callsign(s: &[u8]) -> nom::IResult<&[u8], &StationIdRef, VerboseError<&[u8]>> {
-    let (rest, result) = nom::bytes::complete::take_while_m_n(3,7, |c: u8| c.is_ascii_uppercase() || c.is_ascii_digit())(s)?;
+    let (rest, result) = nom::bytes::complete::take_while_m_n(3,10, |c: u8| c.is_ascii_uppercase() || c.is_ascii_digit() || c == b'-')(s)?;
     // let cow = if result.iter().any(|&b| b'a' <= b && b <= b'z') {
     //     Cow::Owned(unsafe { String::from_utf8_unchecked(result.to_ascii_uppercase()) })
     // } else {
-- 
2.43.0


From 4fee45cd65f3d0c3a13d1d7c938e6ad17974fcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 03/37] fix: do not accept blanks and control characters in
 station identities

---
 src/types.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index f8502f2..55f60aa 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -20,7 +20,8 @@ impl aliri_braid::Normalizer for StationId {
     fn normalize(s: &str) -> Result<Cow<str>, Self::Error> {
         // let (rest, cs) = nom::combinator::all_consuming(callsign)(s).map_err(|e| e.to_owned())?;
         // Ok(cs)
-        if STATION.is_match(s) {
+        // Blanks and control characters would break the modem's command lines apart.
+        if STATION.is_match(s) && !s.chars().any(|c| c.is_whitespace() || c.is_control()) {
             if s.as_bytes().iter().any(|&b| b'a' <= b && b <= b'z') {
                 Ok(Cow::Owned(s.to_ascii_uppercase()))
             } else {
-- 
2.43.0


From a16519bff9c4e9fd970e455d940f19b9630aa789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 04/37] fix: notice that the modem closed the control
 connection

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bc204d1..70b43eb 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -483,6 +483,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
     match stream.try_read_buf(upd_buffer) {
         Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
         Err(err) => return Err(err.into()),
+        Ok(0) => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "control connection closed by tnc").into()),
         Ok(bytes) => {
             tracing::trace!(bytes, "received bytes from command port");
         }
-- 
2.43.0


From fabdc14e8b043df260d44dc726f108cf51886758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 05/37] fix: wait for outstanding replies without occupying the
 processor

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 70b43eb..6953d2c 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -456,6 +456,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
+        stream.readable().await?;
         let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
-- 
2.43.0


From 617369eadd4d40aa47998d91c3b3d8b829aef925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 06/37] fix: tracing what the modem sent must not panic on
 invalid text

---
 src/modem/vara.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 6953d2c..856df17 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -495,7 +495,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         while data.len() > 0 {
             match line(&data).try_map_into_str().map_err(stringify_input) {
                 Ok((remaining, line)) => {
-                    tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                    tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                     data = remaining;
 
                     match nom::combinator::all_consuming(tnc_response)(line).try_map_into_str().map_err(stringify_input).finish() {
@@ -539,7 +539,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                     }
                 },
                 Err(err) if err.is_incomplete() => {
-                    tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                    tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                     break
                 },
                 Err(err) => {
-- 
2.43.0


From 6e345ff2a29a23e7db2329d20802f142a48803f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 07/37] fix: end the session when the modem's control link is
 lost

---
 src/modem/vara.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 856df17..d593c1e 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -775,8 +775,7 @@ impl VaraTnc {
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
-                    let _ = subscriber.changed().await;
-                    if subscriber.borrow().is_disconnected() {
+                    if subscriber.changed().await.is_err() || subscriber.borrow().is_disconnected() {
                         let _ = remote_dc.send(());
                         break;
                     }
-- 
2.43.0


From 881089921c148658b976ab8f2d7b176658eba856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 08/37] fix: keep an ended session ended and deliver what it
 received first

---
 src/modem/vara.rs | 49 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index d593c1e..67c628f 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -786,6 +786,7 @@ impl VaraTnc {
                 tnc: self,
                 force_disconnect: Some(force_dc),
                 remote_disconnect: remote_disconnect,
+                ended: false,
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -805,9 +806,18 @@ pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
     remote_disconnect: tokio::sync::oneshot::Receiver<()>,
+    ended: bool,
 }
 
 impl<'a> VaraStream<'a> {
+    /// Completes once the session has ended, and on every later poll.
+    fn poll_ended(&mut self, cx: &mut Context<'_>) -> Poll<()> {
+        if !self.ended {
+            self.ended = Pin::new(&mut self.remote_disconnect).poll(cx).is_ready();
+        }
+        if self.ended { Poll::Ready(()) } else { Poll::Pending }
+    }
+
     pub async fn disconnect(self) -> color_eyre::Result<()> {
         self.tnc.send_disconnect().await
     }
@@ -832,65 +842,64 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
-            Poll::Pending => {}
-            Poll::Ready(_) => {
-                return Poll::Ready(Ok(()));
-            }
-        }
+        let this = self.get_mut();
+        let ended = this.poll_ended(cx).is_ready();
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_read(cx, buf)
+        // What arrived before the end of the session is still delivered.
+        match Pin::new(&mut *this.tnc).pinned_data().poll_read(cx, buf) {
+            Poll::Pending if ended => Poll::Ready(Ok(())),
+            result => result,
+        }
     }
 }
 
 impl<'a> AsyncWrite for VaraStream<'a> {
     fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize, Error>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        let this = self.get_mut();
+        match this.poll_ended(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_write(cx, buf)
+        Pin::new(&mut *this.tnc).pinned_data().poll_write(cx, buf)
     }
 
     fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        let this = self.get_mut();
+        match this.poll_ended(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_flush(cx)
+        Pin::new(&mut *this.tnc).pinned_data().poll_flush(cx)
     }
 
     fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        let this = self.get_mut();
+        match this.poll_ended(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_shutdown(cx)
+        Pin::new(&mut *this.tnc).pinned_data().poll_shutdown(cx)
     }
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        let this = self.get_mut();
+        match this.poll_ended(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_write_vectored(cx, bufs)
+        Pin::new(&mut *this.tnc).pinned_data().poll_write_vectored(cx, bufs)
     }
 
     fn is_write_vectored(&self) -> bool {
-- 
2.43.0


From 2f4afdf8fb4320520330dca7b5780dbef4b3e4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:55 +0000
Subject: [PATCH 09/37] fix: do not disconnect a second time after disconnect
 or abort

---
 src/modem/vara.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 67c628f..68116e9 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -818,12 +818,16 @@ impl<'a> VaraStream<'a> {
         if self.ended { Poll::Ready(()) } else { Poll::Pending }
     }
 
-    pub async fn disconnect(self) -> color_eyre::Result<()> {
-        self.tnc.send_disconnect().await
+    pub async fn disconnect(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_disconnect().await?;
+        self.force_disconnect = None;
+        Ok(())
     }
 
-    pub async fn abort(self) -> color_eyre::Result<()> {
-        self.tnc.send_abort().await
+    pub async fn abort(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_abort().await?;
+        self.force_disconnect = None;
+        Ok(())
     }
 }
 
-- 
2.43.0


From 2c865caa06394acdfca5179f3bf50ffb82756d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 10/37] fix: hand out replies as they are read and decide
 connects by later reports only

---
 src/modem/vara.rs | 51 +++++++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 68116e9..5b435ca 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -282,6 +282,7 @@ pub enum ConnectionState<'a> {
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub enum ConnectionStateOwned {
     Disconnected,
+    Connecting,
     Pending,
     Canceled,
     Connected {
@@ -295,6 +296,10 @@ impl ConnectionStateOwned {
         matches!(self, Self::Connected { .. })
     }
 
+    fn is_connecting(&self) -> bool {
+        matches!(self, Self::Connecting)
+    }
+
     fn is_disconnected(&self) -> bool {
         matches!(self, Self::Disconnected)
     }
@@ -432,7 +437,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
         tokio::select!(
             recv = rx.recv() => {
                 if let Some((command, reply)) = recv {
-                    response_queue.push_back(reply);
+                    response_queue.push_back((matches!(command, Command::Connect(_)), reply));
                     stream.writable().await?;
                     cmd_buffer.clear();
                     write!(&mut cmd_buffer, "{}\r", command).unwrap();
@@ -443,28 +448,14 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 }
             },
             _ = stream.readable() => {
-                let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
-                for result in results {
-                    if let Some(reply) = response_queue.pop_front() {
-                        let _ = reply.send(result);
-                    } else {
-                        tracing::warn!("mismatched reply queue");
-                    }
-                }
+                do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut response_queue)?;
             }
         );
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
         stream.readable().await?;
-        let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
-        for result in results {
-            if let Some(reply) = response_queue.pop_front() {
-                let _ = reply.send(result);
-            } else {
-                tracing::warn!("mismatched reply queue");
-            }
-        }
+        do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut response_queue)?;
     }
     tracing::info!("all replies sent; exiting command loop");
     Ok(())
@@ -478,11 +469,13 @@ fn stringify_input<T: std::fmt::Display>(error: nom::Err<VerboseError<T>>) -> no
     })
 }
 
-#[tracing::instrument(skip(stream, upd_buffer, tx), err)]
-fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender) -> color_eyre::Result<Vec<CommandResult>> {
-    let mut to_acknowledge = Vec::new();
+/// Replies still expected, in order, and whether they answer a connect command.
+type ResponseQueue = VecDeque<(bool, tokio::sync::oneshot::Sender<CommandResult>)>;
+
+#[tracing::instrument(skip(stream, upd_buffer, tx, response_queue), err)]
+fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender, response_queue: &mut ResponseQueue) -> color_eyre::Result<()> {
     match stream.try_read_buf(upd_buffer) {
-        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
+        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(()),
         Err(err) => return Err(err.into()),
         Ok(0) => return Err(std::io::Error::new(std::io::ErrorKind::UnexpectedEof, "control connection closed by tnc").into()),
         Ok(bytes) => {
@@ -503,7 +496,15 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                             tracing::debug!(?response, "received tnc data");
                             match response {
                                 TncResponse::CommandResult(result) => {
-                                    to_acknowledge.push(result);
+                                    if let Some((connecting, reply)) = response_queue.pop_front() {
+                                        // Only what is reported from here on is about this attempt.
+                                        if connecting && result == CommandResult::Ok {
+                                            tx.connection.send_replace(ConnectionStateOwned::Connecting);
+                                        }
+                                        let _ = reply.send(result);
+                                    } else {
+                                        tracing::warn!("mismatched reply queue");
+                                    }
                                 }
                                 TncResponse::Update(update) => {
                                     match update {
@@ -556,7 +557,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         *upd_buffer = new;
         tracing::trace!(bytes = upd_buffer.len(), "retained incomplete parts");
     }
-    Ok(to_acknowledge)
+    Ok(())
 }
 
 #[derive(Debug)]
@@ -768,7 +769,9 @@ impl VaraTnc {
             }
         });
 
-        self.status.connection.changed().await?;
+        while self.status.connection.borrow().is_connecting() {
+            self.status.connection.changed().await?;
+        }
 
         if self.status.connection.borrow().is_connected() {
             let mut subscriber = self.status.connection.clone();
-- 
2.43.0


From af12ece28ec64fcc6633c60d86bf60ded06081bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 11/37] fix: send the disconnect of an earlier session before
 the next connect

---
 src/modem/vara.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 5b435ca..00cc3db 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -567,6 +567,7 @@ pub struct VaraTnc {
     control_channel: Sender<(Command, tokio::sync::oneshot::Sender<CommandResult>)>,
     status: TncStatusReceiver,
     managing_thread: tokio::task::JoinHandle<color_eyre::Result<()>>,
+    closing: Option<tokio::task::JoinHandle<()>>,
 }
 
 fn channel() -> (TncStatusSender, TncStatusReceiver) {
@@ -652,6 +653,7 @@ impl VaraTncBuilder {
             control_channel: control_tx,
             status: status_rx,
             managing_thread,
+            closing: None,
         })
     }
 
@@ -753,6 +755,11 @@ impl VaraTnc {
 
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        if let Some(closing) = &mut self.closing {
+            let _ = closing.await;
+        }
+        self.closing = None;
+
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
             target: to,
@@ -761,13 +768,13 @@ impl VaraTnc {
 
         let (force_dc, force_disconnect) = tokio::sync::oneshot::channel();
         let cloned_control = self.control_channel.clone();
-        let _force_dc = tokio::spawn(async move {
+        self.closing = Some(tokio::spawn(async move {
             if let Ok(()) = force_disconnect.await {
                 let (tx, rx) = tokio::sync::oneshot::channel();
                 let _ = cloned_control.send((Command::Disconnect, tx)).await;
                 let _ = rx.await;
             }
-        });
+        }));
 
         while self.status.connection.borrow().is_connecting() {
             self.status.connection.changed().await?;
-- 
2.43.0


From ca7bd3f18c5c01e39fc3c4a6f3e236898c5c41d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 12/37] fix: call off connect attempts that are abandoned or
 fail unexpectedly

---
 src/modem/vara.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 00cc3db..ae07716 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -760,12 +760,6 @@ impl VaraTnc {
         }
         self.closing = None;
 
-        self.send_command(Command::Connect(ConnectCommand {
-            origin: from,
-            target: to,
-            path: ConnectPath::Direct,
-        })).await?;
-
         let (force_dc, force_disconnect) = tokio::sync::oneshot::channel();
         let cloned_control = self.control_channel.clone();
         self.closing = Some(tokio::spawn(async move {
@@ -776,6 +770,19 @@ impl VaraTnc {
             }
         }));
 
+        let (cmd_tx, cmd_rx) = tokio::sync::oneshot::channel();
+        self.control_channel.send((Command::Connect(ConnectCommand {
+            origin: from,
+            target: to,
+            path: ConnectPath::Direct,
+        }), cmd_tx)).await?;
+        let attempt = ConnectAttempt(Some(force_dc));
+
+        if cmd_rx.await? == CommandResult::Wrong {
+            attempt.over();
+            return Err(color_eyre::eyre::eyre!("failed to send connect command to tnc"));
+        }
+
         while self.status.connection.borrow().is_connecting() {
             self.status.connection.changed().await?;
         }
@@ -794,11 +801,12 @@ impl VaraTnc {
 
             Ok(VaraStream {
                 tnc: self,
-                force_disconnect: Some(force_dc),
+                force_disconnect: attempt.over(),
                 remote_disconnect: remote_disconnect,
                 ended: false,
             })
         } else if self.status.connection.borrow().is_disconnected() {
+            attempt.over();
             Err(color_eyre::eyre::eyre!("failed to connect"))
         } else {
             Err(color_eyre::eyre::eyre!("connection state unexpected"))
@@ -810,6 +818,23 @@ impl VaraTnc {
     }
 }
 
+/// Tells the modem to disconnect when dropped, unless the attempt is over.
+struct ConnectAttempt(Option<tokio::sync::oneshot::Sender<()>>);
+
+impl ConnectAttempt {
+    fn over(mut self) -> Option<tokio::sync::oneshot::Sender<()>> {
+        self.0.take()
+    }
+}
+
+impl Drop for ConnectAttempt {
+    fn drop(&mut self) {
+        if let Some(dc) = self.0.take() {
+            let _ = dc.send(());
+        }
+    }
+}
+
 #[derive(Debug)]
 #[pin_project::pin_project(PinnedDrop)]
 pub struct VaraStream<'a> {
-- 
2.43.0


From 23ce0e81989a49bcb502313d4623af66d141aed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 13/37] fix: do not read what was left of an earlier session

---
 src/modem/vara.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index ae07716..5bd0b60 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -760,6 +760,10 @@ impl VaraTnc {
         }
         self.closing = None;
 
+        // What is left of an earlier session does not belong to this one.
+        let mut stale = [0; 512];
+        while matches!(self.data.try_read(&mut stale), Ok(n) if n > 0) {}
+
         let (force_dc, force_disconnect) = tokio::sync::oneshot::channel();
         let cloned_control = self.control_channel.clone();
         self.closing = Some(tokio::spawn(async move {
-- 
2.43.0


From 617ab9f0622ea52e733d5ce097341396606ce8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 14/37] fix: notice a disconnect even if other reports follow
 at once

---
 src/modem/vara.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 5bd0b60..2ae15bd 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -522,7 +522,12 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                                             tx.registered_calls.send_replace(tx.calls.clone());
                                         }
                                         Update::Connection(state) => {
+                                            let disconnected = state == ConnectionState::Disconnected;
                                             tx.connection.send_replace(state.into_owned());
+                                            if disconnected {
+                                                tx.disconnect_count += 1;
+                                                tx.disconnects.send_replace(tx.disconnect_count);
+                                            }
                                         }
                                         Update::RemoteRegistration(registration) => {
                                             tx.remote_registration.send_replace(registration);
@@ -577,6 +582,7 @@ fn channel() -> (TncStatusSender, TncStatusReceiver) {
     let (registered_calls_tx, registered_calls_rx) = channel(std::collections::HashSet::new());
     let (heartbeat_tx, heartbeat_rx) = channel(Instant::now());
     let (connection_tx, connection_rx) = channel(ConnectionStateOwned::Disconnected);
+    let (disconnects_tx, disconnects_rx) = channel(0);
     let (transceiver_tx, transceiver_rx) = channel(TransceiverCommand::Receive);
     let (remote_registration_tx, remote_registration_rx) = channel(Registration::Unregistered);
 
@@ -587,6 +593,8 @@ fn channel() -> (TncStatusSender, TncStatusReceiver) {
         registered_calls: registered_calls_tx,
         last_heartbeat: heartbeat_tx,
         connection: connection_tx,
+        disconnect_count: 0,
+        disconnects: disconnects_tx,
         transceiver_control: transceiver_tx,
         remote_registration: remote_registration_tx,
     };
@@ -597,6 +605,7 @@ fn channel() -> (TncStatusSender, TncStatusReceiver) {
         registered_calls: registered_calls_rx,
         last_heartbeat: heartbeat_rx,
         connection: connection_rx,
+        disconnects: disconnects_rx,
         transceiver_control: transceiver_rx,
         remote_registration: remote_registration_rx,
     };
@@ -612,6 +621,8 @@ struct TncStatusSender {
     registered_calls: tokio::sync::watch::Sender<std::collections::HashSet<StationId>>,
     last_heartbeat: tokio::sync::watch::Sender<std::time::Instant>,
     connection: tokio::sync::watch::Sender<ConnectionStateOwned>,
+    disconnect_count: usize,
+    disconnects: tokio::sync::watch::Sender<usize>,
     transceiver_control: tokio::sync::watch::Sender<TransceiverCommand>,
     remote_registration: tokio::sync::watch::Sender<Registration>,
 }
@@ -623,6 +634,7 @@ struct TncStatusReceiver {
     registered_calls: tokio::sync::watch::Receiver<std::collections::HashSet<StationId>>,
     last_heartbeat: tokio::sync::watch::Receiver<std::time::Instant>,
     connection: tokio::sync::watch::Receiver<ConnectionStateOwned>,
+    disconnects: tokio::sync::watch::Receiver<usize>,
     transceiver_control: tokio::sync::watch::Receiver<TransceiverCommand>,
     remote_registration: tokio::sync::watch::Receiver<Registration>,
 }
@@ -791,16 +803,13 @@ impl VaraTnc {
             self.status.connection.changed().await?;
         }
 
+        let mut subscriber = self.status.disconnects.clone();
+        let disconnects = *subscriber.borrow_and_update();
         if self.status.connection.borrow().is_connected() {
-            let mut subscriber = self.status.connection.clone();
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
-                loop {
-                    if subscriber.changed().await.is_err() || subscriber.borrow().is_disconnected() {
-                        let _ = remote_dc.send(());
-                        break;
-                    }
-                }
+                let _ = subscriber.changed().await;
+                let _ = remote_dc.send(());
             });
 
             Ok(VaraStream {
@@ -808,6 +817,7 @@ impl VaraTnc {
                 force_disconnect: attempt.over(),
                 remote_disconnect: remote_disconnect,
                 ended: false,
+                disconnects,
             })
         } else if self.status.connection.borrow().is_disconnected() {
             attempt.over();
@@ -846,6 +856,7 @@ pub struct VaraStream<'a> {
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
     remote_disconnect: tokio::sync::oneshot::Receiver<()>,
     ended: bool,
+    disconnects: usize,
 }
 
 impl<'a> VaraStream<'a> {
@@ -873,7 +884,7 @@ impl<'a> VaraStream<'a> {
 #[pin_project::pinned_drop]
 impl<'a> PinnedDrop for VaraStream<'a> {
     fn drop(self: Pin<&mut Self>) {
-        if !self.tnc.status.connection.borrow().is_disconnected() {
+        if *self.tnc.status.disconnects.borrow() == self.disconnects {
             let this = self.project();
             if let Some(dc) = this.force_disconnect.take() {
                 let _ = dc.send(());
-- 
2.43.0


From 16753cdaf38715dfaea05ba6a9e6597156e34e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 15/37] fix: an empty response from the rig must not end rig
 control

The line parser rejected a lone ';' as a parse error, which ended the task
that hands transmit and receive orders to the rig.
---
 src/rig/elecraft/kx3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index c2575d3..3792aee 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -40,7 +40,7 @@ pub enum Update<'a> {
 }
 
 fn line(data: &[u8]) -> IResult<&[u8], &[u8]> {
-    nom::sequence::terminated(nom::bytes::streaming::take_until1(";"), nom::bytes::streaming::tag(";"))(data)
+    nom::sequence::terminated(nom::bytes::streaming::take_until(";"), nom::bytes::streaming::tag(";"))(data)
 }
 
 #[tracing::instrument(skip(rx, stream), err)]
-- 
2.43.0


From 3b413bbd373e1322eb604f1b4020fd1ce4f0565a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 16/37] fix: end rig control when the serial line reaches its
 end

Reading at the end of the line gives zero bytes at once, again and again, so
the task occupied the processor for ever.
---
 src/rig/elecraft/kx3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 3792aee..404aa3c 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -64,6 +64,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
             result = stream.read_buf(&mut upd_buffer) => {
                 match result {
                     Err(err) => return Err(err.into()),
+                    Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
                     Ok(bytes) => {
                         tracing::trace!(bytes, "received bytes from command port");
                     }
-- 
2.43.0


From 95ca2c5e558c7b7f77f3e314214a96aba1163047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:36 +0000
Subject: [PATCH 17/37] fix: tracing what the rig sent must not panic on
 invalid text

---
 src/rig/elecraft/kx3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 404aa3c..d4f6965 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -74,7 +74,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                     while data.len() > 0 {
                         match line(&data) {
                             Ok((remaining, line)) => {
-                                tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                                tracing::trace!(line = %String::from_utf8_lossy(line), remaining = %String::from_utf8_lossy(remaining), "received complete line");
                                 data = remaining;
                                 //
                                 // match nom::combinator::all_consuming(update)(line).map_err(|e| e.map_input(|i| String::from_utf8(i.into()).unwrap())).finish() {
@@ -103,7 +103,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                                 // }
                             },
                             Err(err) if err.is_incomplete() => {
-                                tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                                tracing::trace!(buffer = %String::from_utf8_lossy(data), "incomplete");
                                 break
                             },
                             Err(err) => {
-- 
2.43.0


From e54edf73f3c1d1b80faf6ab2890544bff8bae070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 18/37] fix: tracing what the remote station sent must not
 panic on invalid text

---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e7f0714..3b38225 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -114,7 +114,7 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = %String::from_utf8_lossy(line), remaining = %String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
@@ -122,7 +122,7 @@ async fn main() -> color_eyre::Result<()> {
                         }
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = %String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
@@ -165,12 +165,12 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = %String::from_utf8_lossy(line), remaining = %String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = %String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
-- 
2.43.0


From 489a5b6e7ab2d1d54d0f5ae4a84c1438713c8b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 19/37] fix: an empty line from the remote station must not end
 the program

The line parser rejected it as a parse error.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 3b38225..208d820 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,7 @@ async fn main() -> color_eyre::Result<()> {
     let mut read = bytes::BytesMut::new();
 
     fn line(data: &[u8]) -> nom::IResult<&[u8], &[u8]> {
-        nom::sequence::terminated(nom::bytes::streaming::take_until1("\r"), nom::bytes::streaming::tag("\r"))(data)
+        nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
     'out: loop {
-- 
2.43.0


From 6149e8bb63311894e217df1278b674bee466869f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 20/37] fix: notice that the session ended before the prompt

The loop that waits for the prompt took the end of the session for data and
went round for ever.
---
 src/main.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 208d820..08a5e5f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -107,8 +107,15 @@ async fn main() -> color_eyre::Result<()> {
         nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
+    let mut input = tokio::io::BufReader::new(tokio::io::stdin());
+
     'out: loop {
-        vara_stream.read_buf(&mut read).await?;
+        let count = vara_stream.read_buf(&mut read).await?;
+        if count == 0 {
+            tracing::warn!("session ended before the prompt of the remote station");
+            input.read_line(&mut String::new()).await?;
+            return Ok(());
+        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
@@ -149,7 +156,6 @@ async fn main() -> color_eyre::Result<()> {
     //     // data.write_all(to_send.as_bytes()).await?;
     //     // data.write_all(b"\r").await?;
     // }
-    let mut input = tokio::io::BufReader::new(tokio::io::stdin());
     input.read_line(&mut String::new()).await?;
     let ident = format!("{}-{}", env!("CARGO_BIN_NAME"), env!("CARGO_PKG_VERSION"));
     let to_be_sent = format!("[{}-B2FWIHJM$]\rFF\r", ident);
-- 
2.43.0


From f1e7fb583f7fa5f7cc5056d4e3cbceee718e77c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 21/37] fix: show the lines that arrive together with the
 prompt

Whatever was read along with the prompt was thrown away, including the
beginning of a line whose rest came later.
---
 src/main.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 08a5e5f..cf4619e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -109,7 +109,8 @@ async fn main() -> color_eyre::Result<()> {
 
     let mut input = tokio::io::BufReader::new(tokio::io::stdin());
 
-    'out: loop {
+    let mut prompted = false;
+    while !prompted {
         let count = vara_stream.read_buf(&mut read).await?;
         if count == 0 {
             tracing::warn!("session ended before the prompt of the remote station");
@@ -125,7 +126,7 @@ async fn main() -> color_eyre::Result<()> {
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
-                            break 'out;
+                            prompted = true;
                         }
                     },
                     Err(err) if err.is_incomplete() => {
@@ -160,7 +161,6 @@ async fn main() -> color_eyre::Result<()> {
     let ident = format!("{}-{}", env!("CARGO_BIN_NAME"), env!("CARGO_PKG_VERSION"));
     let to_be_sent = format!("[{}-B2FWIHJM$]\rFF\r", ident);
     vara_stream.write_all(to_be_sent.as_bytes()).await?;
-    read.clear();
     loop {
         let count = vara_stream.read_buf(&mut read).await?;
         if count == 0 {
-- 
2.43.0


From d590aa21a36063642af8de235e71b9613a09f008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:12 +0000
Subject: [PATCH 22/37] fix: put the rig back to receive when the modem's
 control link is lost

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index cf4619e..af0b7a9 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -94,6 +94,8 @@ async fn main() -> color_eyre::Result<()> {
             };
             rig_tx.send(plusendi::rig::elecraft::kx3::Command::SetTransmitState(request)).await?;
         }
+        // Nobody is left to end a transmission.
+        rig_tx.send(plusendi::rig::elecraft::kx3::Command::SetTransmitState(plusendi::rig::elecraft::kx3::TransmitState::Receive)).await?;
         tracing::info!("all done with automatic rig control");
         color_eyre::Result::<_, color_eyre::Report>::Ok(())
     });
-- 
2.43.0


From 0bfd7487f6a68f97f72078021c6c7df04118e5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:14 +0000
Subject: [PATCH 23/37] fix: decode distances of 256 and more

---
 src/lzhuf.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 6dd49b6..44b3f5d 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -655,14 +655,14 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
     #[tracing::instrument(skip(self))]
     fn decode_position(&mut self) -> Option<u16> {
         let mut i = self.stream.get_byte()? as u16;
-        let c = DECODE_CODE[i as usize] << 6;
+        let c = (DECODE_CODE[i as usize] as u16) << 6;
         let mut j = DECODE_LEN[i as usize];
 
         j -= 2;
         for _ in (1..=j).rev() {
             i = (i << 1) + self.stream.get_bit()? as u16;
         }
-        Some(c as u16 | (i & 0x3f))
+        Some(c | (i & 0x3f))
     }
 }
 
-- 
2.43.0


From 02b08e98b0e6f3d405a8139fe38c6132875dac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 24/37] fix: a match past the declared end of a message must
 not overrun the buffer

---
 src/lzhuf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 44b3f5d..2ab7cab 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -628,7 +628,8 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 count += 1;
             } else {
                 let i = (self.state.r.wrapping_sub(self.decode_position().ok_or(UnexpectedEof)?).wrapping_sub(1)) & (N - 1);
-                let j = c - 255 + THRESHOLD;
+                // A match may reach past the end of a damaged message.
+                let j = (c - 255 + THRESHOLD).min((buffer.len() - count).min(F as usize) as u16);
                 for k in 0..j {
                     let c = self.state.text_buffer[((i + k) & (N - 1)) as usize];
                     buffer[count] = c;
-- 
2.43.0


From 8e9d229a6d4e54e378aa6ef9860477c8d7beefa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:49 +0000
Subject: [PATCH 25/37] fix: compressing an empty message must not panic

---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 2ab7cab..eeb7c40 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -536,6 +536,9 @@ impl<'a> Encoder<'a> {
             }
             len += 1;
         }
+        if len == 0 {
+            return;
+        }
         for i in 1..=F {
             self.insert_node(r - i);
         }
-- 
2.43.0


From cc0e3b901139d42bdd5addbcfd88021075291917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 26/37] fix: codes of 16 and more bits must be written whole

---
 src/lzhuf.rs | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index eeb7c40..737d081 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -152,7 +152,7 @@ impl LzHufState {
 }
 
 struct Bitbuffer<'a> {
-    bit_buffer: u16,
+    bit_buffer: u64,
     bit_pos: u8,
     output: &'a mut Vec<u8>,
 }
@@ -166,21 +166,14 @@ impl<'a> Bitbuffer<'a> {
         }
     }
 
-    fn put_code(&mut self, l: u8, c: u16) {
-        self.bit_buffer |= c >> self.bit_pos;
+    /// Appends the upper `l` bits of `c`.
+    fn put_code(&mut self, l: u8, c: u32) {
+        self.bit_buffer |= ((c as u64) << 32) >> self.bit_pos;
         self.bit_pos += l;
-        if self.bit_pos >= 8 {
-            self.output.push((self.bit_buffer >> 8) as u8);
+        while self.bit_pos >= 8 {
+            self.output.push((self.bit_buffer >> 56) as u8);
+            self.bit_buffer <<= 8;
             self.bit_pos -= 8;
-            if self.bit_pos >= 8 {
-                self.output.push(self.bit_buffer as u8);
-                // self.codesize += 2;
-                self.bit_pos -= 8;
-                self.bit_buffer = c << (l - self.bit_pos) as usize;
-            } else {
-                self.bit_buffer = self.bit_buffer << 8;
-                // self.codesize += 1;
-            }
         }
     }
 
@@ -190,7 +183,7 @@ impl<'a> Bitbuffer<'a> {
 impl<'a> Drop for Bitbuffer<'a> {
     fn drop(&mut self) {
         if self.bit_pos > 0 {
-            self.output.push((self.bit_buffer >> 8) as u8);
+            self.output.push((self.bit_buffer >> 56) as u8);
         }
     }
 }
@@ -497,13 +490,13 @@ impl<'a> Encoder<'a> {
     }
 
     fn encode_char(&mut self, c: u16) {
-        let mut i = 0u16;
+        let mut i = 0u32;
         let mut j = 0u8;
         let mut k = self.state.parents[(c + T) as usize];
         loop {
             i = i >> 1;
             if k & 1 != 0 {
-                i = i.wrapping_add(0x8000);
+                i |= 0x8000_0000;
             }
             j += 1;
 
@@ -519,8 +512,8 @@ impl<'a> Encoder<'a> {
 
     fn encode_position(&mut self, c: u16) {
         let i = c >> 6;
-        self.output.put_code(p_len[i as usize], (p_code[i as usize] as u16) << 8);
-        self.output.put_code(6, (c & 0x3f) << 10);
+        self.output.put_code(p_len[i as usize], (p_code[i as usize] as u32) << 24);
+        self.output.put_code(6, ((c & 0x3f) as u32) << 26);
     }
 
     fn encode<I: IntoIterator<IntoIter=Y, Item = u8>, Y: Iterator<Item = u8>>(&mut self, input: I) {
-- 
2.43.0


From dd9472e82970a1d94d97702ed6d91e121f5ed6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:35 +0000
Subject: [PATCH 27/37] fix: logging a checksum mismatch must not panic

---
 src/fbb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index d20fe76..af1b0e5 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -71,7 +71,7 @@ fn b2_message_block(data: &[u8]) -> IResult<&[u8], CompressedMessage, VerboseErr
                 let checksum_ok = checksum.wrapping_add(check) == 0;
 
                 if !checksum_ok {
-                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", -(check as i8)).as_str(), "checksum mismatch");
+                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", check.wrapping_neg()).as_str(), "checksum mismatch");
                 }
 
                 let mut crc = Crc16::new();
-- 
2.43.0


From bac52fce68f5b62b41df42e3211916fe35aad548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:48 +0000
Subject: [PATCH 28/37] fix: reject a header that ends too early instead of
 waiting for more

---
 src/fbb.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index af1b0e5..3405d2f 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -100,7 +100,8 @@ fn b2_message_block(data: &[u8]) -> IResult<&[u8], CompressedMessage, VerboseErr
 fn header(data: &[u8]) -> IResult<&[u8], (&str, u32), VerboseError<&[u8]>> {
     let (rest, data) = preceded(soh, verify(be_u8, |&v| v <= 88))(data)?;
     let (rest, header) = take(data)(rest)?;
-    let (_, (title, offset)) = all_consuming(terminated(
+    // All of the header is there: what ends too early is damaged and not incomplete.
+    let (_, (title, offset)) = nom::combinator::complete(all_consuming(terminated(
         separated_pair(
             nom::combinator::map(
                 nom::bytes::complete::take_while(|c: u8| c.is_ascii_graphic() || c == b' '),
@@ -114,7 +115,7 @@ fn header(data: &[u8]) -> IResult<&[u8], (&str, u32), VerboseError<&[u8]>> {
                 }),
         ),
         nul
-    ))(header)?;
+    )))(header)?;
     Ok((rest, (title, offset)))
 }
 
-- 
2.43.0


From 9d2c8b233eda3907915f73ea87497d3fffe4fb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:48 +0000
Subject: [PATCH 29/37] sim: let the simulator issue commands that no public
 call issues yet

---
 src/modem/vara.rs      | 4 ++++
 src/sim/access_vara.rs | 7 +++++++
 src/sim/mod.rs         | 1 +
 3 files changed, 12 insertions(+)
 create mode 100644 src/sim/access_vara.rs

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 2ae15bd..12cac2e 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -960,3 +960,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
         self.tnc.data.is_write_vectored()
     }
 }
+
+#[cfg(plusendi_sim)]
+#[path = "../sim/access_vara.rs"]
+pub mod sim_access;
diff --git a/src/sim/access_vara.rs b/src/sim/access_vara.rs
new file mode 100644
index 0000000..6accf64
--- /dev/null
+++ b/src/sim/access_vara.rs
@@ -0,0 +1,7 @@
+//! Access to commands that no public call issues yet, for the simulator only.
+
+use super::*;
+
+pub async fn send(tnc: &VaraTnc, command: Command) -> color_eyre::Result<()> {
+    tnc.send_command(command).await
+}
diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index a1f1d13..86e6d87 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -24,6 +24,7 @@ pub mod time;
 
 pub use crate::fbb::sim_access as fbb;
 pub use crate::lzhuf::sim_access as lzhuf;
+pub use crate::modem::vara::sim_access as vara;
 
 /// Everything nondeterministic that this crate can meet. Endpoints are numbered by the world.
 pub trait World {
-- 
2.43.0


From bd955d7513e367ce5dc52e92b2d5c867f61a42fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:48 +0000
Subject: [PATCH 30/37] fix: separate the relays of a two-hop path from the
 target

---
 src/modem/vara.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 12cac2e..6647dd0 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -202,7 +202,7 @@ impl fmt::Display for ConnectPath {
         match self {
             ConnectPath::Direct => Ok(()),
             ConnectPath::OneHop { digipeater } => write!(f, " via {}", digipeater),
-            ConnectPath::TwoHops { first, second } => write!(f, "via {} {}", first, second),
+            ConnectPath::TwoHops { first, second } => write!(f, " via {} {}", first, second),
         }
     }
 }
-- 
2.43.0


From 7a33457ee9abd71c34867b7c73b4efeebf5f9f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:39 +0000
Subject: [PATCH 31/37] sim: let the simulator parse forwarding lines, and
 build without private parts

---
 src/fbb.rs            |  2 +-
 src/lzhuf.rs          |  2 +-
 src/modem/vara.rs     |  2 +-
 src/sim/access_fbb.rs | 81 +++++++++++++++++++++++++++++++++++++++++++
 src/sim/mod.rs        |  4 +++
 5 files changed, 88 insertions(+), 3 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 3405d2f..386a658 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -352,7 +352,7 @@ impl<'a> BqpProposalExtension<'a> {
     }
 }
 
-#[cfg(plusendi_sim)]
+#[cfg(all(plusendi_sim, not(plusendi_sim_core)))]
 #[path = "sim/access_fbb.rs"]
 pub mod sim_access;
 
diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 737d081..b4d3477 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -755,7 +755,7 @@ const DECODE_LEN: [u8; 256] = [
     0x08, 0x08, 0x08, 0x08, 0x08, 0x08, 0x08, 0x08,
 ];
 
-#[cfg(plusendi_sim)]
+#[cfg(all(plusendi_sim, not(plusendi_sim_core)))]
 #[path = "sim/access_lzhuf.rs"]
 pub mod sim_access;
 
diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 6647dd0..93f977a 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -961,6 +961,6 @@ impl<'a> AsyncWrite for VaraStream<'a> {
     }
 }
 
-#[cfg(plusendi_sim)]
+#[cfg(all(plusendi_sim, not(plusendi_sim_core)))]
 #[path = "../sim/access_vara.rs"]
 pub mod sim_access;
diff --git a/src/sim/access_fbb.rs b/src/sim/access_fbb.rs
index 8885928..7db76c6 100644
--- a/src/sim/access_fbb.rs
+++ b/src/sim/access_fbb.rs
@@ -35,3 +35,84 @@ pub fn receive(data: &[u8], decompress: bool) -> Received {
         Err(_) => Received::Rejected,
     }
 }
+
+/// What a forwarding line says. Numbers are widened, names are copied.
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub enum Forwarding {
+    Proposal { kind: u8, sender: String, mbo: String, recipient: String, id: String, size: u64 },
+    Winlink { id: String, uncompressed: u64, compressed: u64, bqp: Option<(String, String, String)> },
+    /// `+` with its offset, `=` or `-`.
+    Selection(Vec<(u8, u64)>),
+    Control,
+}
+
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub enum Parsed {
+    Incomplete(Option<usize>),
+    Rejected,
+    Done { consumed: usize, what: Forwarding },
+}
+
+/// Which line is expected.
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Want {
+    Proposal,
+    Winlink,
+    /// An answer to this many proposals (1 to 5).
+    Selection(usize),
+    NoMore,
+    AllDone,
+    EndOfProposal,
+}
+
+pub fn forwarding(want: Want, data: &[u8]) -> Parsed {
+    match want {
+        Want::Proposal => parsed(data, fbb_proposal(data), |p| Forwarding::Proposal {
+            kind: match p.message_type {
+                MessageType::Private => b'P',
+                MessageType::Bulletin => b'B',
+                MessageType::Traffic => b'T',
+            },
+            sender: p.sender.as_str().to_owned(),
+            mbo: p.addressee.mbo.as_str().to_owned(),
+            recipient: p.addressee.recipient.as_str().to_owned(),
+            id: p.message_id.as_str().to_owned(),
+            size: p.message_size.into(),
+        }),
+        Want::Winlink => parsed(data, winlink_proposal(data), |p| Forwarding::Winlink {
+            id: p.message_id.as_str().to_owned(),
+            uncompressed: p.uncompressed_message_size.into(),
+            compressed: p.compressed_message_size.into(),
+            bqp: p.bqp_extension.map(|b| (b.sender.as_str().to_owned(), b.addressee.mbo.as_str().to_owned(), b.addressee.recipient.as_str().to_owned())),
+        }),
+        Want::Selection(1) => parsed(data, selection::<1>(data), |c| choices(&c)),
+        Want::Selection(2) => parsed(data, selection::<2>(data), |c| choices(&c)),
+        Want::Selection(3) => parsed(data, selection::<3>(data), |c| choices(&c)),
+        Want::Selection(4) => parsed(data, selection::<4>(data), |c| choices(&c)),
+        Want::Selection(_) => parsed(data, selection::<5>(data), |c| choices(&c)),
+        Want::NoMore => parsed(data, no_more(data), |_| Forwarding::Control),
+        Want::AllDone => parsed(data, all_done(data), |_| Forwarding::Control),
+        Want::EndOfProposal => parsed(data, end_of_proposal_tag(data), |_| Forwarding::Control),
+    }
+}
+
+fn choices(c: &[MessageChoice]) -> Forwarding {
+    Forwarding::Selection(
+        c.iter()
+            .map(|c| match c {
+                MessageChoice::Accept { offset } => (b'+', (*offset).into()),
+                MessageChoice::Defer => (b'=', 0),
+                MessageChoice::Reject => (b'-', 0),
+            })
+            .collect(),
+    )
+}
+
+fn parsed<'a, T>(data: &'a [u8], result: IResult<&'a [u8], T, VerboseError<&'a [u8]>>, what: impl FnOnce(T) -> Forwarding) -> Parsed {
+    match result {
+        Ok((rest, t)) => Parsed::Done { consumed: data.len() - rest.len(), what: what(t) },
+        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Parsed::Incomplete(Some(n.get())),
+        Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Parsed::Incomplete(None),
+        Err(_) => Parsed::Rejected,
+    }
+}
diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index 86e6d87..656c379 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -22,8 +22,12 @@ pub mod sync;
 pub mod task;
 pub mod time;
 
+// Access to private parts; `--cfg plusendi_sim_core` leaves it out.
+#[cfg(not(plusendi_sim_core))]
 pub use crate::fbb::sim_access as fbb;
+#[cfg(not(plusendi_sim_core))]
 pub use crate::lzhuf::sim_access as lzhuf;
+#[cfg(not(plusendi_sim_core))]
 pub use crate::modem::vara::sim_access as vara;
 
 /// Everything nondeterministic that this crate can meet. Endpoints are numbered by the world.
-- 
2.43.0


From b2f4ace9a87e1ee6867be3b61e9dac58c04170a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:42 +0000
Subject: [PATCH 32/37] fix: shutting down a session must not close the data
 connection of the next

---
 src/modem/vara.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 93f977a..a2faf73 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -941,7 +941,8 @@ impl<'a> AsyncWrite for VaraStream<'a> {
             }
         }
 
-        Pin::new(&mut *this.tnc).pinned_data().poll_shutdown(cx)
+        // The data connection outlives this session.
+        Pin::new(&mut *this.tnc).pinned_data().poll_flush(cx)
     }
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
-- 
2.43.0


From 8d01438cbc400b89122ddcb008bacb9a3ca715a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:48 +0000
Subject: [PATCH 33/37] fix: notice the end of a session while reading and
 writing wait in different tasks

---
 src/modem/vara.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index a2faf73..b9aa756 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -807,15 +807,18 @@ impl VaraTnc {
         let disconnects = *subscriber.borrow_and_update();
         if self.status.connection.borrow().is_connected() {
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
+            let (write_dc, write_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 let _ = subscriber.changed().await;
                 let _ = remote_dc.send(());
+                let _ = write_dc.send(());
             });
 
             Ok(VaraStream {
                 tnc: self,
                 force_disconnect: attempt.over(),
                 remote_disconnect: remote_disconnect,
+                write_disconnect,
                 ended: false,
                 disconnects,
             })
@@ -855,6 +858,8 @@ pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
     remote_disconnect: tokio::sync::oneshot::Receiver<()>,
+    /// The same for writing, which may wait in another task than reading.
+    write_disconnect: tokio::sync::oneshot::Receiver<()>,
     ended: bool,
     disconnects: usize,
 }
@@ -868,6 +873,14 @@ impl<'a> VaraStream<'a> {
         if self.ended { Poll::Ready(()) } else { Poll::Pending }
     }
 
+    /// The same for the writing side.
+    fn poll_write_ended(&mut self, cx: &mut Context<'_>) -> Poll<()> {
+        if !self.ended {
+            self.ended = Pin::new(&mut self.write_disconnect).poll(cx).is_ready();
+        }
+        if self.ended { Poll::Ready(()) } else { Poll::Pending }
+    }
+
     pub async fn disconnect(mut self) -> color_eyre::Result<()> {
         self.tnc.send_disconnect().await?;
         self.force_disconnect = None;
@@ -910,7 +923,7 @@ impl<'a> AsyncRead for VaraStream<'a> {
 impl<'a> AsyncWrite for VaraStream<'a> {
     fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize, Error>> {
         let this = self.get_mut();
-        match this.poll_ended(cx) {
+        match this.poll_write_ended(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
@@ -922,7 +935,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.get_mut();
-        match this.poll_ended(cx) {
+        match this.poll_write_ended(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
@@ -934,7 +947,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
         let this = self.get_mut();
-        match this.poll_ended(cx) {
+        match this.poll_write_ended(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
@@ -947,7 +960,7 @@ impl<'a> AsyncWrite for VaraStream<'a> {
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
         let this = self.get_mut();
-        match this.poll_ended(cx) {
+        match this.poll_write_ended(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
-- 
2.43.0


From 3adf70ec278db89edf5380f1bcfb4455a961d01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 34/37] fix: accept proposals and offsets of up to six digits

Message sizes and offsets are read as one to six digits but were kept in 16
bits, so that proposals of messages over 65535 bytes were refused.
---
 src/fbb.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 386a658..f821398 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -175,7 +175,7 @@ fn select_tag(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum MessageChoice {
-    Accept { offset: u16 },
+    Accept { offset: u32 },
     Defer,
     Reject,
 }
@@ -189,7 +189,7 @@ fn selection_element(data: &[u8]) -> IResult<&[u8], MessageChoice, VerboseError<
         value(MessageChoice::Accept { offset: 0 }, alt((tag("+"), tag("Y"), tag("H")))),
         map(preceded(
             alt((tag("!"), tag("A"))),
-            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10)),
+            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10)),
         ), |offset| MessageChoice::Accept { offset }),
         value(MessageChoice::Defer, alt((tag("="), tag("L")))),
         value(MessageChoice::Reject, alt((tag("-"), tag("N"), tag("R"), tag("E")))),
@@ -263,8 +263,8 @@ fn message_id(data: &[u8]) -> IResult<&[u8], &MessageIdRef, VerboseError<&[u8]>>
     map(map_res(take_while_m_n(1, 12, |x| !delimiter(x)), std::str::from_utf8), MessageIdRef::from_str)(data)
 }
 
-fn message_size(data: &[u8]) -> IResult<&[u8], u16, VerboseError<&[u8]>> {
-    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10))(data)
+fn message_size(data: &[u8]) -> IResult<&[u8], u32, VerboseError<&[u8]>> {
+    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10))(data)
 }
 
 fn fbb_proposal(data: &[u8]) -> IResult<&[u8], Proposal, VerboseError<&[u8]>> {
@@ -286,11 +286,11 @@ struct Proposal<'a> {
     sender: &'a SenderRef,
     addressee: Addressee<'a>,
     message_id: &'a MessageIdRef,
-    message_size: u16,
+    message_size: u32,
 }
 
 impl<'a> Proposal<'a> {
-    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u16)) -> Self {
+    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u32)) -> Self {
         Self {
             message_type,
             sender,
@@ -322,13 +322,13 @@ fn winlink_proposal(data: &[u8]) -> IResult<&[u8], WinlinkProposal, VerboseError
 
 struct WinlinkProposal<'a> {
     message_id: &'a MessageIdRef,
-    compressed_message_size: u16,
-    uncompressed_message_size: u16,
+    compressed_message_size: u32,
+    uncompressed_message_size: u32,
     bqp_extension: Option<BqpProposalExtension<'a>>
 }
 
 impl<'a> WinlinkProposal<'a> {
-    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u16, u16, Option<BqpProposalExtension<'a>>)) -> Self {
+    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u32, u32, Option<BqpProposalExtension<'a>>)) -> Self {
         Self {
             message_id,
             uncompressed_message_size,
-- 
2.43.0


From 31fc9ebf7e103efca4225e36aa8a9487005c14e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:08 +0000
Subject: [PATCH 35/37] sim: offer send_timeout on the simulated channels

---
 src/sim/sync.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/sim/sync.rs b/src/sim/sync.rs
index 0763bae..2796570 100644
--- a/src/sim/sync.rs
+++ b/src/sim/sync.rs
@@ -231,6 +231,22 @@ pub mod mpsc {
             r
         }
 
+        pub async fn send_timeout(
+            &self,
+            value: T,
+            timeout: std::time::Duration,
+        ) -> Result<(), error::SendTimeoutError<T>> {
+            match crate::sim::time::timeout(timeout, self.reserve()).await {
+                Err(_) => Err(error::SendTimeoutError::Timeout(value)),
+                Ok(Err(_)) => Err(error::SendTimeoutError::Closed(value)),
+                Ok(Ok(permit)) => {
+                    permit.send(value);
+                    op();
+                    Ok(())
+                }
+            }
+        }
+
         pub async fn reserve(&self) -> Result<Permit<'_, T>, error::SendError<()>> {
             op();
             self.0.reserve().await
-- 
2.43.0


From b6aac8f4e2ecea611293844c1c0f53cebc46a36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 36/37] sim: hooks into private parts that can be left out one
 by one

---
 src/fbb.rs                                    |  9 +++--
 src/lzhuf.rs                                  |  6 +--
 src/modem/vara.rs                             |  6 +--
 src/sim/{access_lzhuf.rs => access_codec.rs}  |  0
 .../{access_vara.rs => access_commands.rs}    |  0
 src/sim/{access_fbb.rs => access_lines.rs}    | 36 +-----------------
 src/sim/access_messages.rs                    | 37 +++++++++++++++++++
 src/sim/mod.rs                                | 16 ++++----
 8 files changed, 59 insertions(+), 51 deletions(-)
 rename src/sim/{access_lzhuf.rs => access_codec.rs} (100%)
 rename src/sim/{access_vara.rs => access_commands.rs} (100%)
 rename src/sim/{access_fbb.rs => access_lines.rs} (73%)
 create mode 100644 src/sim/access_messages.rs

diff --git a/src/fbb.rs b/src/fbb.rs
index f821398..9ebe5a0 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -352,9 +352,12 @@ impl<'a> BqpProposalExtension<'a> {
     }
 }
 
-#[cfg(all(plusendi_sim, not(plusendi_sim_core)))]
-#[path = "sim/access_fbb.rs"]
-pub mod sim_access;
+#[cfg(all(plusendi_sim, not(plusendi_sim_no_messages)))]
+#[path = "sim/access_messages.rs"]
+pub mod sim_messages;
+#[cfg(all(plusendi_sim, not(plusendi_sim_no_lines)))]
+#[path = "sim/access_lines.rs"]
+pub mod sim_lines;
 
 #[cfg(test)]
 mod tests {
diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b4d3477..25b8920 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -755,9 +755,9 @@ const DECODE_LEN: [u8; 256] = [
     0x08, 0x08, 0x08, 0x08, 0x08, 0x08, 0x08, 0x08,
 ];
 
-#[cfg(all(plusendi_sim, not(plusendi_sim_core)))]
-#[path = "sim/access_lzhuf.rs"]
-pub mod sim_access;
+#[cfg(all(plusendi_sim, not(plusendi_sim_no_codec)))]
+#[path = "sim/access_codec.rs"]
+pub mod sim_codec;
 
 #[cfg(test)]
 mod tests2 {
diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b9aa756..439f8b7 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -975,6 +975,6 @@ impl<'a> AsyncWrite for VaraStream<'a> {
     }
 }
 
-#[cfg(all(plusendi_sim, not(plusendi_sim_core)))]
-#[path = "../sim/access_vara.rs"]
-pub mod sim_access;
+#[cfg(all(plusendi_sim, not(plusendi_sim_no_commands)))]
+#[path = "../sim/access_commands.rs"]
+pub mod sim_commands;
diff --git a/src/sim/access_lzhuf.rs b/src/sim/access_codec.rs
similarity index 100%
rename from src/sim/access_lzhuf.rs
rename to src/sim/access_codec.rs
diff --git a/src/sim/access_vara.rs b/src/sim/access_commands.rs
similarity index 100%
rename from src/sim/access_vara.rs
rename to src/sim/access_commands.rs
diff --git a/src/sim/access_fbb.rs b/src/sim/access_lines.rs
similarity index 73%
rename from src/sim/access_fbb.rs
rename to src/sim/access_lines.rs
index 7db76c6..11bd6fe 100644
--- a/src/sim/access_fbb.rs
+++ b/src/sim/access_lines.rs
@@ -1,41 +1,7 @@
-//! Access to the private message receiver, for the simulator only.
+//! Access to the private parsers of forwarding lines, for the simulator only.
 
 use super::*;
 
-#[derive(Clone, Debug, PartialEq, Eq)]
-pub enum Received {
-    /// More bytes are needed; the receiver's estimate of how many, if it has one.
-    Incomplete(Option<usize>),
-    Rejected,
-    Accepted {
-        consumed: usize,
-        title: String,
-        offset: u32,
-        crc16: u16,
-        uncompressed_size: u32,
-        data: Vec<u8>,
-        /// What decompressing it gave (`None`: end-of-data error); only if asked for.
-        message: Option<Option<Vec<u8>>>,
-    },
-}
-
-pub fn receive(data: &[u8], decompress: bool) -> Received {
-    match b2_message_block(data) {
-        Ok((rest, m)) => Received::Accepted {
-            consumed: data.len() - rest.len(),
-            title: m.title.to_owned(),
-            offset: m.offset,
-            crc16: m.crc16,
-            uncompressed_size: m.uncompressed_size,
-            data: m.blocks.concat(),
-            message: if decompress { Some(m.decompress().ok()) } else { None },
-        },
-        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Received::Incomplete(Some(n.get())),
-        Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Received::Incomplete(None),
-        Err(_) => Received::Rejected,
-    }
-}
-
 /// What a forwarding line says. Numbers are widened, names are copied.
 #[derive(Clone, Debug, PartialEq, Eq)]
 pub enum Forwarding {
diff --git a/src/sim/access_messages.rs b/src/sim/access_messages.rs
new file mode 100644
index 0000000..8885928
--- /dev/null
+++ b/src/sim/access_messages.rs
@@ -0,0 +1,37 @@
+//! Access to the private message receiver, for the simulator only.
+
+use super::*;
+
+#[derive(Clone, Debug, PartialEq, Eq)]
+pub enum Received {
+    /// More bytes are needed; the receiver's estimate of how many, if it has one.
+    Incomplete(Option<usize>),
+    Rejected,
+    Accepted {
+        consumed: usize,
+        title: String,
+        offset: u32,
+        crc16: u16,
+        uncompressed_size: u32,
+        data: Vec<u8>,
+        /// What decompressing it gave (`None`: end-of-data error); only if asked for.
+        message: Option<Option<Vec<u8>>>,
+    },
+}
+
+pub fn receive(data: &[u8], decompress: bool) -> Received {
+    match b2_message_block(data) {
+        Ok((rest, m)) => Received::Accepted {
+            consumed: data.len() - rest.len(),
+            title: m.title.to_owned(),
+            offset: m.offset,
+            crc16: m.crc16,
+            uncompressed_size: m.uncompressed_size,
+            data: m.blocks.concat(),
+            message: if decompress { Some(m.decompress().ok()) } else { None },
+        },
+        Err(nom::Err::Incomplete(nom::Needed::Size(n))) => Received::Incomplete(Some(n.get())),
+        Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Received::Incomplete(None),
+        Err(_) => Received::Rejected,
+    }
+}
diff --git a/src/sim/mod.rs b/src/sim/mod.rs
index 656c379..a319cdb 100644
--- a/src/sim/mod.rs
+++ b/src/sim/mod.rs
@@ -22,13 +22,15 @@ pub mod sync;
 pub mod task;
 pub mod time;
 
-// Access to private parts; `--cfg plusendi_sim_core` leaves it out.
-#[cfg(not(plusendi_sim_core))]
-pub use crate::fbb::sim_access as fbb;
-#[cfg(not(plusendi_sim_core))]
-pub use crate::lzhuf::sim_access as lzhuf;
-#[cfg(not(plusendi_sim_core))]
-pub use crate::modem::vara::sim_access as vara;
+// Access to private parts; each can be left out.
+#[cfg(not(plusendi_sim_no_messages))]
+pub use crate::fbb::sim_messages as messages;
+#[cfg(not(plusendi_sim_no_lines))]
+pub use crate::fbb::sim_lines as lines;
+#[cfg(not(plusendi_sim_no_codec))]
+pub use crate::lzhuf::sim_codec as codec;
+#[cfg(not(plusendi_sim_no_commands))]
+pub use crate::modem::vara::sim_commands as commands;
 
 /// Everything nondeterministic that this crate can meet. Endpoints are numbered by the world.
 pub trait World {
-- 
2.43.0


From fa2d43b8c7f56327b0f56a24ffe0ca3d8a29b484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:37 +0000
Subject: [PATCH 37/37] sim: complete the stand-in for tokio's split halves,
 timeouts, intervals and join errors

---
 src/sim/net.rs  | 144 ++++++++++++++++++++++++++++++++++++++++--------
 src/sim/task.rs |  14 +++++
 src/sim/time.rs |  95 ++++++++++++++++++++++++++------
 3 files changed, 212 insertions(+), 41 deletions(-)

diff --git a/src/sim/net.rs b/src/sim/net.rs
index b5e781d..2d70e03 100644
--- a/src/sim/net.rs
+++ b/src/sim/net.rs
@@ -103,10 +103,27 @@ impl TcpStream {
         Ok(())
     }
 
+    pub fn linger(&self) -> io::Result<Option<std::time::Duration>> {
+        Ok(None)
+    }
+
     pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
         Ok(())
     }
 
+    pub fn ttl(&self) -> io::Result<u32> {
+        Ok(64)
+    }
+
+    pub fn set_ttl(&self, _: u32) -> io::Result<()> {
+        Ok(())
+    }
+
+    pub fn try_io<R>(&self, _: Interest, f: impl FnOnce() -> io::Result<R>) -> io::Result<R> {
+        op();
+        f()
+    }
+
     pub async fn readable(&self) -> io::Result<()> {
         poll_fn(|cx| self.poll_read_ready(cx)).await
     }
@@ -204,44 +221,119 @@ impl TcpStream {
         }
     }
 
-    pub fn split(&mut self) -> (&TcpStream, &TcpStream) {
-        (self, self)
+    pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
+        (tcp::ReadHalf(self), tcp::WriteHalf(self))
     }
 
-    pub fn into_split(self) -> (OwnedHalf, OwnedHalf) {
+    pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
         let shared = Arc::new(self);
-        (OwnedHalf(shared.clone()), OwnedHalf(shared))
+        (tcp::OwnedReadHalf(shared.clone()), tcp::OwnedWriteHalf(shared, true))
     }
 }
 
-/// Either half of a split stream; the connection closes when both are gone.
-#[derive(Debug)]
-pub struct OwnedHalf(Arc<TcpStream>);
+/// The halves of a split stream; the connection closes when both are gone.
+pub mod tcp {
+    use super::*;
+    use std::ops::Deref;
+
+    #[derive(Debug)]
+    pub struct ReadHalf<'a>(pub(super) &'a TcpStream);
+    #[derive(Debug)]
+    pub struct WriteHalf<'a>(pub(super) &'a TcpStream);
+    #[derive(Debug)]
+    pub struct OwnedReadHalf(pub(super) Arc<TcpStream>);
+    /// Ends the stream's writing side when dropped, unless it is forgotten.
+    #[derive(Debug)]
+    pub struct OwnedWriteHalf(pub(super) Arc<TcpStream>, pub(super) bool);
+
+    #[derive(Debug)]
+    pub struct ReuniteError(pub OwnedReadHalf, pub OwnedWriteHalf);
+
+    impl std::fmt::Display for ReuniteError {
+        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+            f.write_str("tried to reunite halves that are not from the same socket")
+        }
+    }
+
+    impl std::error::Error for ReuniteError {}
+
+    impl OwnedReadHalf {
+        pub fn reunite(self, other: OwnedWriteHalf) -> Result<TcpStream, ReuniteError> {
+            if !Arc::ptr_eq(&self.0, &other.0) {
+                return Err(ReuniteError(self, other));
+            }
+            other.forget();
+            Ok(Arc::try_unwrap(self.0).expect("the last half"))
+        }
+    }
+
+    impl OwnedWriteHalf {
+        pub fn reunite(self, other: OwnedReadHalf) -> Result<TcpStream, ReuniteError> {
+            other.reunite(self)
+        }
 
-impl std::ops::Deref for OwnedHalf {
-    type Target = TcpStream;
-    fn deref(&self) -> &TcpStream {
-        &self.0
+        pub fn forget(mut self) {
+            self.1 = false;
+        }
+    }
+
+    impl Drop for OwnedWriteHalf {
+        fn drop(&mut self) {
+            if self.1 {
+                if let Some(w) = try_world() {
+                    let _ = w.shutdown(self.0.end.id);
+                }
+            }
+        }
+    }
+
+    impl Deref for ReadHalf<'_> {
+        type Target = TcpStream;
+        fn deref(&self) -> &TcpStream {
+            self.0
+        }
+    }
+
+    impl Deref for WriteHalf<'_> {
+        type Target = TcpStream;
+        fn deref(&self) -> &TcpStream {
+            self.0
+        }
+    }
+
+    impl Deref for OwnedReadHalf {
+        type Target = TcpStream;
+        fn deref(&self) -> &TcpStream {
+            &self.0
+        }
+    }
+
+    impl Deref for OwnedWriteHalf {
+        type Target = TcpStream;
+        fn deref(&self) -> &TcpStream {
+            &self.0
+        }
     }
 }
 
-macro_rules! stream_io {
-    ($ty:ty, $s:ident => $end:expr) => {
+macro_rules! stream_read {
+    ($ty:ty) => {
         impl AsyncRead for $ty {
             fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
-                let $s = &*self;
-                $end.poll_read(cx, buf)
+                self.end.poll_read(cx, buf)
             }
         }
+    };
+}
 
+macro_rules! stream_write {
+    ($ty:ty, $s:ident => $shut:expr) => {
         impl AsyncWrite for $ty {
             fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
-                let $s = &*self;
-                $end.poll_write(cx, &[io::IoSlice::new(buf)])
+                self.end.poll_write(cx, &[io::IoSlice::new(buf)])
             }
             fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[io::IoSlice<'_>]) -> Poll<io::Result<usize>> {
-                let $s = &*self;
-                $end.poll_write(cx, bufs)
+                self.end.poll_write(cx, bufs)
             }
             fn is_write_vectored(&self) -> bool {
                 true
@@ -250,13 +342,17 @@ macro_rules! stream_io {
                 Poll::Ready(Ok(()))
             }
             fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
-                let $s = &*self;
-                Poll::Ready(world().shutdown($end.id))
+                let $s = self.get_mut();
+                $shut;
+                Poll::Ready(world().shutdown($s.end.id))
             }
         }
     };
 }
 
-stream_io!(TcpStream, s => s.end);
-stream_io!(&TcpStream, s => s.end);
-stream_io!(OwnedHalf, s => s.0.end);
+stream_read!(TcpStream);
+stream_read!(tcp::ReadHalf<'_>);
+stream_read!(tcp::OwnedReadHalf);
+stream_write!(TcpStream, s => ());
+stream_write!(tcp::WriteHalf<'_>, s => ());
+stream_write!(tcp::OwnedWriteHalf, s => s.1 = false);
diff --git a/src/sim/task.rs b/src/sim/task.rs
index ca73829..a25593b 100644
--- a/src/sim/task.rs
+++ b/src/sim/task.rs
@@ -27,6 +27,20 @@ impl JoinError {
     pub fn is_panic(&self) -> bool {
         self.panic
     }
+
+    pub fn into_panic(self) -> Box<dyn std::any::Any + Send + 'static> {
+        self.try_into_panic().expect("`JoinError` reason is not a panic.")
+    }
+
+    pub fn try_into_panic(self) -> Result<Box<dyn std::any::Any + Send + 'static>, JoinError> {
+        if self.panic { Ok(Box::new("a task panicked")) } else { Err(self) }
+    }
+}
+
+impl From<JoinError> for std::io::Error {
+    fn from(src: JoinError) -> Self {
+        std::io::Error::new(std::io::ErrorKind::Other, if src.panic { "task panicked" } else { "task was cancelled" })
+    }
 }
 
 impl fmt::Display for JoinError {
diff --git a/src/sim/time.rs b/src/sim/time.rs
index 5e2fee1..d659ebe 100644
--- a/src/sim/time.rs
+++ b/src/sim/time.rs
@@ -71,41 +71,101 @@ impl Drop for Sleep {
 }
 
 pub fn sleep(duration: Duration) -> Sleep {
-    sleep_until(Instant::now() + duration)
+    sleep_until(after(duration))
+}
+
+fn after(duration: Duration) -> Instant {
+    let now = Instant::now();
+    now.checked_add(duration).unwrap_or_else(|| now + Duration::from_secs(86400 * 365 * 30))
 }
 
 pub fn sleep_until(deadline: Instant) -> Sleep {
     Sleep { deadline, timer: 0 }
 }
 
-pub async fn timeout<F: Future>(duration: Duration, future: F) -> Result<F::Output, Elapsed> {
-    timeout_at(Instant::now() + duration, future).await
+/// A future with a deadline, which counts from when it is made.
+#[derive(Debug)]
+pub struct Timeout<F> {
+    future: F,
+    sleep: Sleep,
 }
 
-pub async fn timeout_at<F: Future>(deadline: Instant, future: F) -> Result<F::Output, Elapsed> {
-    let mut future = Box::pin(future);
-    let mut sleep = sleep_until(deadline);
-    std::future::poll_fn(|cx| {
-        if let Poll::Ready(out) = future.as_mut().poll(cx) {
+impl<F> Timeout<F> {
+    pub fn get_ref(&self) -> &F {
+        &self.future
+    }
+
+    pub fn get_mut(&mut self) -> &mut F {
+        &mut self.future
+    }
+
+    pub fn into_inner(self) -> F {
+        self.future
+    }
+}
+
+impl<F: Future> Future for Timeout<F> {
+    type Output = Result<F::Output, Elapsed>;
+
+    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
+        // The future is pinned with this, the timer can be moved.
+        let this = unsafe { self.get_unchecked_mut() };
+        if let Poll::Ready(out) = unsafe { Pin::new_unchecked(&mut this.future) }.poll(cx) {
             return Poll::Ready(Ok(out));
         }
-        Pin::new(&mut sleep).poll(cx).map(|()| Err(Elapsed(())))
-    })
-    .await
+        Pin::new(&mut this.sleep).poll(cx).map(|()| Err(Elapsed(())))
+    }
+}
+
+pub fn timeout<F: Future>(duration: Duration, future: F) -> Timeout<F> {
+    Timeout { future, sleep: sleep(duration) }
+}
+
+pub fn timeout_at<F: Future>(deadline: Instant, future: F) -> Timeout<F> {
+    Timeout { future, sleep: sleep_until(deadline) }
 }
 
+pub use crate::real_tokio::time::MissedTickBehavior;
+
 #[derive(Debug)]
 pub struct Interval {
-    next: Instant,
+    next: Sleep,
     period: Duration,
+    missed: MissedTickBehavior,
 }
 
 impl Interval {
     pub async fn tick(&mut self) -> Instant {
-        let at = self.next;
-        sleep_until(at).await;
-        self.next = at + self.period;
-        at
+        std::future::poll_fn(|cx| self.poll_tick(cx)).await
+    }
+
+    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
+        if Pin::new(&mut self.next).poll(cx).is_pending() {
+            return Poll::Pending;
+        }
+        let (due, now, period) = (self.next.deadline(), Instant::now(), self.period);
+        let next = match self.missed {
+            MissedTickBehavior::Delay if now > due => now + period,
+            MissedTickBehavior::Skip if now > due => {
+                let late = (now - due).as_nanos() % period.as_nanos();
+                now + period - Duration::from_nanos(late as u64)
+            }
+            _ => due + period,
+        };
+        Pin::new(&mut self.next).reset(next);
+        Poll::Ready(due)
+    }
+
+    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
+        self.missed
+    }
+
+    pub fn set_missed_tick_behavior(&mut self, behavior: MissedTickBehavior) {
+        self.missed = behavior;
+    }
+
+    pub fn period(&self) -> Duration {
+        self.period
     }
 }
 
@@ -114,5 +174,6 @@ pub fn interval(period: Duration) -> Interval {
 }
 
 pub fn interval_at(start: Instant, period: Duration) -> Interval {
-    Interval { next: start, period }
+    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
+    Interval { next: sleep_until(start), period, missed: MissedTickBehavior::default() }
 }
-- 
2.43.0


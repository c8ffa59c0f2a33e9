//! Simulation stand-in for `tokio`.
//!
//! Everything is re-exported from the real crate (vendored unmodified as `real-tokio`), except
//! `tokio::net::TcpStream` and its halves, which are replaced by a stream whose every byte,
//! readiness change and error is decided by the simulator that installed a [`sim::Connector`].
//! The code under test is compiled against this crate through cargo's `[patch]`, so it needs
//! no change: whatever it imports from `tokio::net` is the simulated network.

pub use real::*;

pub mod sim {
    use std::cell::RefCell;
    use std::future::Future;
    use std::io;
    use std::net::SocketAddr;
    use std::pin::Pin;
    use std::sync::Arc;
    use std::task::{Context, Poll};

    /// One simulated connection, as seen from the code under test.
    pub trait Socket: Send + Sync {
        fn poll_read(&self, cx: &mut Context<'_>, room: usize) -> Poll<io::Result<Vec<u8>>>;
        fn poll_write(&self, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>>;
        fn poll_flush(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>>;
        /// Orderly close of the write direction (also on drop of the write half).
        fn close_write(&self);
        fn drop_read(&self);
    }

    pub type Connecting = Pin<Box<dyn Future<Output = io::Result<Arc<dyn Socket>>> + Send>>;
    pub type Connector = Box<dyn FnMut(SocketAddr) -> Connecting>;

    thread_local! {
        static CONNECTOR: RefCell<Option<Connector>> = const { RefCell::new(None) };
    }

    pub fn set_connector(c: Option<Connector>) {
        CONNECTOR.with(|k| *k.borrow_mut() = c);
    }

    pub(crate) fn connect(addr: SocketAddr) -> Connecting {
        CONNECTOR.with(|k| match k.borrow_mut().as_mut() {
            Some(c) => c(addr),
            None => panic!("no simulated network installed"),
        })
    }
}

pub mod net {
    pub use real::net::*;

    use std::io;
    use std::net::SocketAddr;
    use std::pin::Pin;
    use std::sync::Arc;
    use std::task::{Context, Poll};

    use crate::sim::Socket;
    use real::io::{AsyncRead, AsyncWrite, ReadBuf};

    type Sock = Arc<dyn Socket>;

    // As real sockets do, take part in tokio's cooperative budget.
    fn coop<T>(
        cx: &mut Context<'_>,
        mut f: impl FnMut(&mut Context<'_>) -> Poll<T>,
    ) -> Poll<T> {
        use std::future::Future;
        let fut = std::future::poll_fn(move |cx| f(cx));
        let fut = std::pin::pin!(real::task::coop::cooperative(fut));
        fut.poll(cx)
    }

    fn read(s: &Sock, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let room = buf.remaining();
        match coop(cx, |cx| s.poll_read(cx, room)) {
            Poll::Ready(Ok(v)) => {
                buf.put_slice(&v);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }

    fn write(s: &Sock, cx: &mut Context<'_>, data: &[u8]) -> Poll<io::Result<usize>> {
        coop(cx, |cx| s.poll_write(cx, data))
    }

    fn try_read(s: &Sock, buf: &mut [u8]) -> io::Result<usize> {
        let mut cx = Context::from_waker(std::task::Waker::noop());
        match s.poll_read(&mut cx, buf.len()) {
            Poll::Ready(Ok(v)) => {
                buf[..v.len()].copy_from_slice(&v);
                Ok(v.len())
            }
            Poll::Ready(Err(e)) => Err(e),
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }

    fn try_write(s: &Sock, data: &[u8]) -> io::Result<usize> {
        let mut cx = Context::from_waker(std::task::Waker::noop());
        match s.poll_write(&mut cx, data) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }

    struct Rd(Sock);
    impl Drop for Rd {
        fn drop(&mut self) {
            self.0.drop_read()
        }
    }
    struct Wr(Sock);
    impl Drop for Wr {
        fn drop(&mut self) {
            self.0.close_write()
        }
    }

    pub struct TcpStream {
        rd: Rd,
        wr: Wr,
        peer: SocketAddr,
    }

    impl std::fmt::Debug for TcpStream {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "TcpStream({})", self.peer)
        }
    }

    impl TcpStream {
        pub async fn connect<A: ToSocketAddrs>(addr: A) -> io::Result<TcpStream> {
            let mut last = None;
            for a in real::net::lookup_host(addr).await? {
                match crate::sim::connect(a).await {
                    Ok(s) => {
                        return Ok(TcpStream {
                            rd: Rd(s.clone()),
                            wr: Wr(s),
                            peer: a,
                        })
                    }
                    Err(e) => last = Some(e),
                }
            }
            Err(last.unwrap_or_else(|| {
                io::Error::new(io::ErrorKind::InvalidInput, "could not resolve to any address")
            }))
        }
        pub fn into_split(self) -> (tcp::OwnedReadHalf, tcp::OwnedWriteHalf) {
            (
                tcp::OwnedReadHalf {
                    rd: self.rd,
                    peer: self.peer,
                },
                tcp::OwnedWriteHalf {
                    wr: self.wr,
                    peer: self.peer,
                },
            )
        }
        pub fn peer_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
        pub fn local_addr(&self) -> io::Result<SocketAddr> {
            Ok(self.peer)
        }
        pub fn set_nodelay(&self, _: bool) -> io::Result<()> {
            Ok(())
        }
        pub fn nodelay(&self) -> io::Result<bool> {
            Ok(true)
        }
        pub fn set_ttl(&self, _: u32) -> io::Result<()> {
            Ok(())
        }
        pub fn set_linger(&self, _: Option<std::time::Duration>) -> io::Result<()> {
            Ok(())
        }
        pub fn set_zero_linger(&self) -> io::Result<()> {
            Ok(())
        }
        pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
            try_read(&self.rd.0, buf)
        }
        pub fn try_write(&self, data: &[u8]) -> io::Result<usize> {
            try_write(&self.wr.0, data)
        }
        pub fn split(&mut self) -> (tcp::ReadHalf<'_>, tcp::WriteHalf<'_>) {
            (tcp::ReadHalf { s: &*self }, tcp::WriteHalf { s: &*self })
        }
    }

    impl AsyncRead for TcpStream {
        fn poll_read(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            buf: &mut ReadBuf<'_>,
        ) -> Poll<io::Result<()>> {
            read(&self.rd.0, cx, buf)
        }
    }
    impl AsyncWrite for TcpStream {
        fn poll_write(
            self: Pin<&mut Self>,
            cx: &mut Context<'_>,
            data: &[u8],
        ) -> Poll<io::Result<usize>> {
            write(&self.wr.0, cx, data)
        }
        fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.wr.0.poll_flush(cx)
        }
        fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
            self.wr.0.close_write();
            Poll::Ready(Ok(()))
        }
    }

    pub mod tcp {
        use super::*;

        pub struct OwnedReadHalf {
            pub(super) rd: Rd,
            pub(super) peer: SocketAddr,
        }
        pub struct OwnedWriteHalf {
            pub(super) wr: Wr,
            pub(super) peer: SocketAddr,
        }
        impl std::fmt::Debug for OwnedReadHalf {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "OwnedReadHalf({})", self.peer)
            }
        }
        impl std::fmt::Debug for OwnedWriteHalf {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "OwnedWriteHalf({})", self.peer)
            }
        }
        #[derive(Debug)]
        pub struct ReadHalf<'a> {
            pub(super) s: &'a TcpStream,
        }
        #[derive(Debug)]
        pub struct WriteHalf<'a> {
            pub(super) s: &'a TcpStream,
        }
        impl AsyncRead for ReadHalf<'_> {
            fn poll_read(
                self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                buf: &mut ReadBuf<'_>,
            ) -> Poll<io::Result<()>> {
                read(&self.s.rd.0, cx, buf)
            }
        }
        impl AsyncWrite for WriteHalf<'_> {
            fn poll_write(
                self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                data: &[u8],
            ) -> Poll<io::Result<usize>> {
                write(&self.s.wr.0, cx, data)
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.s.wr.0.poll_flush(cx)
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.s.wr.0.close_write();
                Poll::Ready(Ok(()))
            }
        }
        impl OwnedReadHalf {
            pub fn local_addr(&self) -> io::Result<SocketAddr> {
                Ok(self.peer)
            }
            pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
                try_read(&self.rd.0, buf)
            }
            pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                Ok(self.peer)
            }
        }
        impl OwnedWriteHalf {
            pub fn local_addr(&self) -> io::Result<SocketAddr> {
                Ok(self.peer)
            }
            pub fn try_write(&self, data: &[u8]) -> io::Result<usize> {
                try_write(&self.wr.0, data)
            }
            pub fn peer_addr(&self) -> io::Result<SocketAddr> {
                Ok(self.peer)
            }
        }
        impl AsyncRead for OwnedReadHalf {
            fn poll_read(
                self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                buf: &mut ReadBuf<'_>,
            ) -> Poll<io::Result<()>> {
                read(&self.rd.0, cx, buf)
            }
        }
        impl AsyncWrite for OwnedWriteHalf {
            fn poll_write(
                self: Pin<&mut Self>,
                cx: &mut Context<'_>,
                data: &[u8],
            ) -> Poll<io::Result<usize>> {
                write(&self.wr.0, cx, data)
            }
            fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.wr.0.poll_flush(cx)
            }
            fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
                self.wr.0.close_write();
                Poll::Ready(Ok(()))
            }
        }
    }
}

pub use std::os::unix::net::SocketAddr;

use crate::rt;
use crate::world::{self, Listener, Obj, Stream};
use std::io::{self, Read, Write};
use std::net::Shutdown;
use std::os::unix::io::{AsRawFd, RawFd};
use std::path::Path;
use std::time::Duration;

fn bad() -> io::Error {
    io::Error::from_raw_os_error(libc::EBADF)
}
fn unnamed() -> SocketAddr {
    // a real unnamed address, obtained once
    static A: std::sync::OnceLock<SocketAddr> = std::sync::OnceLock::new();
    A.get_or_init(|| std::os::unix::net::UnixDatagram::unbound().unwrap().local_addr().unwrap()).clone()
}

pub struct UnixListener(RawFd);
pub struct UnixStream(RawFd);

impl UnixListener {
    pub fn bind<P: AsRef<Path>>(path: P) -> io::Result<UnixListener> {
        rt::point("bind the control socket");
        world::fault(rt::world().faults.bind, "bind", &[libc::EACCES])?;
        let w = rt::world();
        let path = path.as_ref().to_path_buf();
        if !w.paths.insert(path.clone()) {
            return Err(io::Error::from_raw_os_error(libc::EADDRINUSE));
        }
        let fd = w.add(Obj::UnixListener(Listener { path: path.clone(), backlog: Default::default(), accepted: 0 }), "program");
        w.unix.insert(path, fd);
        Ok(UnixListener(fd))
    }
    pub fn accept(&self) -> io::Result<(UnixStream, SocketAddr)> {
        rt::point("accept a client");
        let fd = self.0;
        let nb = rt::world().get(fd).ok_or_else(bad)?.nonblocking;
        if !nb {
            rt::block("a client", None, false, move || rt::world().readable(fd));
        }
        world::fault(rt::world().faults.accept, "accept a client", &[libc::EMFILE, libc::EINTR])?;
        let l = rt::world().listener(fd).ok_or_else(bad)?;
        let s = l.backlog.pop_front().ok_or_else(|| io::Error::from(io::ErrorKind::WouldBlock))?;
        l.accepted += 1;
        rt::note(|| format!("accepted client {}", s));
        Ok((UnixStream(s), unnamed()))
    }
    pub fn incoming(&self) -> Incoming<'_> {
        Incoming(self)
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        rt::world().get(self.0).ok_or_else(bad)?.nonblocking = v;
        Ok(())
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(unnamed())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
}
pub struct Incoming<'a>(&'a UnixListener);
impl Iterator for Incoming<'_> {
    type Item = io::Result<UnixStream>;
    fn next(&mut self) -> Option<Self::Item> {
        Some(self.0.accept().map(|x| x.0))
    }
}
impl<'a> IntoIterator for &'a UnixListener {
    type Item = io::Result<UnixStream>;
    type IntoIter = Incoming<'a>;
    fn into_iter(self) -> Incoming<'a> {
        self.incoming()
    }
}

fn pair(a: &'static str, b: &'static str) -> (RawFd, RawFd) {
    let w = rt::world();
    let x = w.add(Obj::Stream(Stream::default()), a);
    let y = w.add(Obj::Stream(Stream::default()), b);
    w.stream(x).unwrap().peer = Some(y);
    w.stream(y).unwrap().peer = Some(x);
    (x, y)
}

impl UnixStream {
    pub fn connect<P: AsRef<Path>>(path: P) -> io::Result<UnixStream> {
        rt::point("connect to a control socket");
        let w = rt::world();
        let Some(&l) = w.unix.get(path.as_ref()) else {
            let e = if w.paths.contains(path.as_ref()) { libc::ECONNREFUSED } else { libc::ENOENT };
            return Err(io::Error::from_raw_os_error(e));
        };
        Ok(UnixStream(connect_to(l)))
    }
    pub fn pair() -> io::Result<(UnixStream, UnixStream)> {
        let (a, b) = pair("program", "program");
        Ok((UnixStream(a), UnixStream(b)))
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        rt::world().get(self.0).ok_or_else(bad)?.nonblocking = v;
        Ok(())
    }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        if d == Some(Duration::ZERO) {
            return Err(io::ErrorKind::InvalidInput.into());
        }
        rt::world().get(self.0).ok_or_else(bad)?.read_timeout = d.map(|d| d.as_nanos() as u64);
        Ok(())
    }
    pub fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn read_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(rt::world().get(self.0).ok_or_else(bad)?.read_timeout.map(Duration::from_nanos))
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(unnamed())
    }
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        Ok(unnamed())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
    pub fn shutdown(&self, how: Shutdown) -> io::Result<()> {
        rt::point("shut down a stream");
        let w = rt::world();
        let s = w.stream(self.0).ok_or_else(bad)?;
        if how != Shutdown::Read {
            s.shut_write = true;
            if let Some(p) = s.peer {
                if let Some(o) = w.stream(p) {
                    o.eof = true;
                }
                w.bump(p);
            }
        }
        Ok(())
    }
    fn do_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        rt::point("read from a client");
        let fd = self.0;
        let e = rt::world().get(fd).ok_or_else(bad)?;
        let (nb, to) = (e.nonblocking, e.read_timeout);
        if buf.is_empty() {
            return Ok(0);
        }
        if nb {
            if !rt::world().readable(fd) {
                return Err(io::ErrorKind::WouldBlock.into());
            }
        } else if !rt::block("bytes from a client", to.map(|t| rt::now() + t), false, move || rt::world().readable(fd)) {
            return Err(io::ErrorKind::WouldBlock.into());
        }
        world::fault(rt::world().faults.read, "read", &[libc::EINTR])?;
        let s = rt::world().stream(fd).ok_or_else(bad)?;
        let n = buf.len().min(s.inbox.len());
        for b in buf[..n].iter_mut() {
            *b = s.inbox.pop_front().unwrap();
        }
        Ok(n)
    }
    fn do_write(&self, buf: &[u8]) -> io::Result<usize> {
        rt::point("write to a stream");
        let w = rt::world();
        let s = w.stream(self.0).ok_or_else(bad)?;
        let Some(p) = s.peer.filter(|_| !s.shut_write) else { return Err(io::ErrorKind::BrokenPipe.into()) };
        let Some(o) = w.stream(p) else { return Err(io::ErrorKind::BrokenPipe.into()) };
        o.inbox.extend(buf);
        w.bump(p);
        Ok(buf.len())
    }
}
impl Read for UnixStream {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.do_read(b)
    }
}
impl Read for &UnixStream {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        self.do_read(b)
    }
}
impl Write for UnixStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.do_write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Write for &UnixStream {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.do_write(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl AsRawFd for UnixListener {
    fn as_raw_fd(&self) -> RawFd {
        self.0
    }
}
impl AsRawFd for UnixStream {
    fn as_raw_fd(&self) -> RawFd {
        self.0
    }
}
impl Drop for UnixListener {
    fn drop(&mut self) {
        world::close(self.0)
    }
}
impl Drop for UnixStream {
    fn drop(&mut self) {
        world::close(self.0)
    }
}
impl std::fmt::Debug for UnixStream {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "UnixStream({})", self.0)
    }
}
impl std::fmt::Debug for UnixListener {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "UnixListener({})", self.0)
    }
}

/// The harness' end of a connection to a listening control socket.
pub fn connect_to(listener: RawFd) -> RawFd {
    let (c, s) = pair("client", "program");
    let w = rt::world();
    w.listener(listener).expect("listener").backlog.push_back(s);
    w.bump(listener);
    c
}
/// Bytes from the harness' end; false if nobody can receive them.
pub fn client_write(fd: RawFd, data: &[u8]) -> bool {
    let w = rt::world();
    let Some(p) = w.stream(fd).and_then(|s| s.peer) else { return false };
    match w.stream(p) {
        Some(o) => {
            o.inbox.extend(data);
            w.bump(p);
            true
        }
        None => false,
    }
}
pub fn client_close(fd: RawFd) {
    rt::world().close(fd);
}

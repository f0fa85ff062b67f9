pub use std::net::*;

pub mod unix;

use crate::rt;
use crate::world::{self, Obj, Sent};
use std::io;
use std::os::unix::io::{AsRawFd, RawFd};
use std::time::Duration;

pub struct UdpSocket(RawFd);

fn bad() -> io::Error {
    io::Error::from_raw_os_error(libc::EBADF)
}
fn first<A: ToSocketAddrs>(a: A) -> io::Result<SocketAddr> {
    a.to_socket_addrs()?.next().ok_or_else(|| io::ErrorKind::InvalidInput.into())
}

impl UdpSocket {
    pub fn bind<A: ToSocketAddrs>(a: A) -> io::Result<UdpSocket> {
        let local = first(a)?;
        rt::point("bind a datagram socket");
        world::fault(rt::world().faults.bind, "bind", &[libc::EADDRINUSE])?;
        let u = world::Udp { local, peer: None, inbox: Default::default() };
        Ok(UdpSocket(rt::world().add(Obj::Udp(u), "program")))
    }
    fn wait(&self) -> io::Result<()> {
        let w = rt::world();
        let e = w.get(self.0).ok_or_else(bad)?;
        let (nb, to) = (e.nonblocking, e.read_timeout);
        if nb {
            return if rt::world().readable(self.0) { Ok(()) } else { Err(io::ErrorKind::WouldBlock.into()) };
        }
        let fd = self.0;
        let ok = rt::block("a datagram", to.map(|t| rt::now() + t), true, move || rt::world().readable(fd));
        if ok { Ok(()) } else { Err(io::ErrorKind::WouldBlock.into()) }
    }
    fn take(&self, buf: &mut [u8], keep: bool) -> io::Result<(usize, SocketAddr)> {
        rt::point("receive a datagram");
        self.wait()?;
        world::fault(rt::world().faults.recv, "recv_from", &[libc::ECONNREFUSED, libc::EINTR])?;
        let u = rt::world().udp(self.0).ok_or_else(bad)?;
        let (from, data, id) = if keep { u.inbox[0].clone() } else { u.inbox.pop_front().expect("a datagram") };
        if !keep {
            rt::world().taken.push(id);
        }
        let n = data.len().min(buf.len());
        buf[..n].copy_from_slice(&data[..n]);
        rt::note(|| format!("took datagram {} of {} bytes from {}", id, data.len(), from));
        Ok((n, from))
    }
    pub fn recv_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.take(buf, false)
    }
    pub fn peek_from(&self, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        self.take(buf, true)
    }
    pub fn recv(&self, buf: &mut [u8]) -> io::Result<usize> {
        self.take(buf, false).map(|x| x.0)
    }
    pub fn send_to<A: ToSocketAddrs>(&self, buf: &[u8], a: A) -> io::Result<usize> {
        let to = first(a)?;
        rt::point("send a datagram");
        let r = world::fault(rt::world().faults.send, "send_to", &[libc::ENETUNREACH]);
        let w = rt::world();
        let from = w.udp(self.0).ok_or_else(bad)?.local;
        w.sent.push(Sent { to, data: buf.to_vec(), ok: r.is_ok(), thread: rt::current(), from });
        rt::note(|| format!("sent {} bytes to {}", buf.len(), to));
        if let Some(f) = w.on_send {
            f(w);
        }
        r.map(|_| buf.len())
    }
    pub fn connect<A: ToSocketAddrs>(&self, a: A) -> io::Result<()> {
        let a = first(a)?;
        rt::world().udp(self.0).ok_or_else(bad)?.peer = Some(a);
        Ok(())
    }
    pub fn send(&self, buf: &[u8]) -> io::Result<usize> {
        let p = rt::world().udp(self.0).ok_or_else(bad)?.peer.ok_or_else(|| io::Error::from_raw_os_error(libc::EDESTADDRREQ))?;
        self.send_to(buf, p)
    }
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        Ok(rt::world().udp(self.0).ok_or_else(bad)?.local)
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        rt::world().get(self.0).ok_or_else(bad)?.nonblocking = v;
        Ok(())
    }
    pub fn set_read_timeout(&self, d: Option<Duration>) -> io::Result<()> {
        rt::world().get(self.0).ok_or_else(bad)?.read_timeout = d.map(|d| d.as_nanos() as u64);
        Ok(())
    }
    pub fn set_write_timeout(&self, _: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn set_broadcast(&self, _: bool) -> io::Result<()> {
        Ok(())
    }
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }
}
impl AsRawFd for UdpSocket {
    fn as_raw_fd(&self) -> RawFd {
        self.0
    }
}
impl Drop for UdpSocket {
    fn drop(&mut self) {
        world::close(self.0)
    }
}

/// Outgoing stream connections: only that they were asked for is modelled.
pub fn tcp_connect(to: SocketAddr) -> io::Result<RawFd> {
    rt::point("connect");
    let r = world::fault(rt::world().faults.connect, "connect", &[libc::ENETUNREACH]);
    let w = rt::world();
    let r = match w.unreachable.get(&to) {
        Some(e) => Err(io::Error::from_raw_os_error(*e)),
        None => r,
    };
    w.connects.push((to, r.is_ok()));
    rt::note(|| format!("connect to {}", to));
    r?;
    Ok(w.add(Obj::TcpStream(world::TcpStream { peer: to, incoming: false }), "program"))
}
pub fn tcp_bind(local: SocketAddr) -> io::Result<RawFd> {
    rt::point("bind a stream socket");
    world::fault(rt::world().faults.bind, "bind", &[libc::EADDRINUSE])?;
    let l = world::TcpListener { local, backlog: Default::default(), accepted: 0 };
    Ok(rt::world().add(Obj::TcpListener(l), "program"))
}
pub fn tcp_accept(fd: RawFd) -> io::Result<(RawFd, SocketAddr)> {
    rt::point("accept");
    world::fault(rt::world().faults.accept, "accept", &[libc::ECONNABORTED, libc::EMFILE, libc::EINTR])?;
    let w = rt::world();
    let l = w.tcp_listener(fd).ok_or_else(bad)?;
    let Some(from) = l.backlog.pop_front() else { return Err(io::ErrorKind::WouldBlock.into()) };
    l.accepted += 1;
    rt::note(|| format!("accepted {}", from));
    let s = w.add(Obj::TcpStream(world::TcpStream { peer: from, incoming: true }), "program");
    Ok((s, from))
}

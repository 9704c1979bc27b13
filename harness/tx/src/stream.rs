//! Byte streams: the real TCP listener and the reader of pooled connections
//! (sip-transport), over loopback sockets that belong to this process alone
//! (an address of 127/8 made of its process id), with a clock that stands still.
use crate::{clock, it, st, Sut};
use bytes::Bytes;
use serde_json::{json, Value};
use sip_ratelimit::RateLimitConfig;
use sip_transport::pool::ConnectionPool;
use sip_transport::{run_tcp, set_stream_rate_limit, InboundPacket, TransportKind};
use std::collections::BTreeMap;
use std::net::SocketAddr;
use std::os::fd::AsRawFd;
use std::time::Duration;
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::mpsc;

pub fn own(port: u16) -> SocketAddr {
    let p = std::process::id();
    SocketAddr::from(([127, 1 + (p >> 16 & 63) as u8, (p >> 8) as u8, p as u8], port))
}
/// lets everything happen that the bytes on their way make happen
pub async fn settle() {
    for _ in 0..12 {
        tokio::task::yield_now().await;
    }
}
pub async fn pause() {
    settle().await;
    std::thread::sleep(Duration::from_micros(300));
    settle().await;
}
/// the sockets of this process that are connected to an address
pub fn fds_to(to: SocketAddr) -> Vec<i32> {
    fds(SocketAddr::from(([0, 0, 0, 0], 0)), to)
}
/// those of them with a certain address at this end (0: any)
fn fds(from: SocketAddr, to: SocketAddr) -> Vec<i32> {
    let (SocketAddr::V4(from), SocketAddr::V4(to)) = (from, to) else { panic!("SCRIPT: address") };
    let same = |a: &libc::sockaddr_in, x: &std::net::SocketAddrV4| u16::from_be(a.sin_port) == x.port() && a.sin_addr.s_addr == u32::from_ne_bytes(x.ip().octets());
    let mut out = vec![];
    let mut gap = 0;
    for fd in 3.. {
        unsafe {
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            let mut n = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
            if libc::getpeername(fd, &mut a as *mut _ as *mut libc::sockaddr, &mut n) == 0 {
                gap = 0;
                let mut b: libc::sockaddr_in = std::mem::zeroed();
                n = std::mem::size_of::<libc::sockaddr_in>() as libc::socklen_t;
                libc::getsockname(fd, &mut b as *mut _ as *mut libc::sockaddr, &mut n);
                if same(&a, &to) && (from.port() == 0 || same(&b, &from)) {
                    out.push(fd);
                }
            } else if std::io::Error::last_os_error().raw_os_error() == Some(libc::EBADF) {
                gap += 1;
                if gap > 200 {
                    return out;
                }
            } else {
                gap = 0;
            }
        }
    }
    out
}
/// bytes written that the other end has not received yet
fn queued(s: &TcpStream) -> i32 {
    let mut n: libc::c_int = 0;
    unsafe { libc::ioctl(s.as_raw_fd(), libc::TIOCOUTQ, &mut n) };
    n
}
struct Conn {
    s: TcpStream,
    peer: SocketAddr, // as the packets of this connection name it
    pool: bool,
    dead: bool,
    back: Vec<u8>,
    last: Option<mpsc::Sender<Bytes>>,
}
impl Conn {
    /// reads what the stack sent; true when it closed the connection
    fn read(&mut self) -> bool {
        let mut b = [0u8; 65536];
        loop {
            match self.s.try_read(&mut b) {
                Ok(0) => return true,
                Ok(n) => self.back.extend_from_slice(&b[..n]),
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => return false,
                Err(_) => return true,
            }
        }
    }
}
pub struct A {
    rt: tokio::runtime::Runtime,
    rx: mpsc::Receiver<InboundPacket>,
    pool: ConnectionPool,
    at: SocketAddr,
    conns: BTreeMap<String, Conn>,
    got: Vec<InboundPacket>,
}
pub fn make(_: &Value) -> Box<dyn Sut> {
    set_stream_rate_limit(RateLimitConfig::disabled());
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let (tx, rx) = mpsc::channel(4096);
    let at = own(5060);
    let pool = ConnectionPool::new().with_keepalive_interval(None);
    rt.block_on(async {
        pool.set_inbound_tx(tx.clone()).await;
        tokio::spawn(async move {
            if let Err(e) = run_tcp(&at.to_string(), tx).await {
                eprintln!("SCRIPT: listener {at}: {e}");
                std::process::exit(2);
            }
        });
        settle().await;
    });
    Box::new(A { rt, rx, pool, at, conns: BTreeMap::new(), got: vec![] })
}
impl A {
    async fn drain(rx: &mut mpsc::Receiver<InboundPacket>, got: &mut Vec<InboundPacket>) {
        settle().await;
        while let Ok(p) = rx.try_recv() {
            got.push(p);
        }
    }
    /// writes, and waits until all of it has reached the other end
    async fn push(s: &TcpStream, x: &[u8], rx: &mut mpsc::Receiver<InboundPacket>, got: &mut Vec<InboundPacket>) {
        let mut x = x;
        let mut spins = 0;
        while !x.is_empty() {
            match s.try_write(x) {
                Ok(n) => x = &x[n..],
                Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {
                    Self::drain(rx, got).await;
                    spins += 1;
                    if spins > 20 {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    if spins > 50_000 {
                        return;
                    }
                }
                Err(_) => return,
            }
        }
        for _ in 0..5_000 {
            if queued(s) == 0 {
                break;
            }
            settle().await;
            std::thread::sleep(Duration::from_micros(100));
        }
        Self::drain(rx, got).await;
    }
    /// the messages of connection c delivered meanwhile
    fn take(&mut self, c: &str) -> Vec<Vec<u8>> {
        let k = self.conns.get_mut(c).unwrap();
        let mut out = vec![];
        for p in self.got.drain(..) {
            assert_eq!(p.peer(), k.peer, "delivered as from another connection");
            assert_eq!(p.transport(), TransportKind::Tcp);
            assert_eq!(p.local(), if k.pool { None } else { Some(self.at) });
            k.last = p.stream().cloned();
            assert!(k.last.is_some());
            out.push(p.payload().to_vec());
        }
        out
    }
    /// whether the stack has closed c; with `long` it is given time for it
    fn closed(&mut self, c: &str, long: bool) -> bool {
        let k = self.conns.get_mut(c).unwrap();
        for i in 0.. {
            self.rt.block_on(pause());
            if (if k.pool { fds_to(k.peer) } else { fds(self.at, k.peer) }).is_empty() {
                break;
            }
            if i >= if long { 2000 } else { 2 } {
                return false;
            }
        }
        for _ in 0..10_000 {
            if k.read() {
                break;
            }
            self.rt.block_on(pause());
        }
        k.dead = true;
        true
    }
}
fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}
fn message(h: usize, b: usize) -> Vec<u8> {
    let mut x = format!("OPTIONS sip:a@b SIP/2.0\r\nContent-Length: {b}\r\nX: ").into_bytes();
    assert!(x.len() <= h, "SCRIPT: header too short");
    x.resize(h, b'y');
    x.extend_from_slice(b"\r\n\r\n");
    x.resize(h + 4 + b, b'z');
    x
}
impl Sut for A {
    fn step(&mut self, a: &Value) -> Value {
        let none = json!({"r": "none"});
        let op = st(a, "op");
        if op == "wait" {
            // in steps, so that whatever is due on the way happens
            for _ in 0..it(a, "n") {
                clock::advance_ms(1000);
                self.rt.block_on(async {
                    for _ in 0..4 {
                        tokio::task::yield_now().await;
                    }
                });
            }
            let names: Vec<String> = self.conns.keys().cloned().collect();
            let mut out = vec![];
            for c in names {
                if !self.conns[&c].dead && self.closed(&c, false) {
                    out.push(c);
                }
            }
            return json!({"r": "waited", "closed": out});
        }
        if op == "crowd" {
            let at = self.at;
            let n = it(a, "n") as usize;
            let (rx, got) = (&mut self.rx, &mut self.got);
            let served = self.rt.block_on(async {
                let mut cs = vec![];
                for _ in 0..n {
                    cs.push(TcpStream::connect(at).await.unwrap_or_else(|e| panic!("SCRIPT: connect {e}")));
                    settle().await;
                }
                for c in &cs {
                    Self::push(c, &message(60, 3), rx, got).await;
                }
                // each is served or turned away
                let all: Vec<SocketAddr> = cs.iter().map(|c| c.local_addr().unwrap()).collect();
                let mut served = vec![];
                for _ in 0..10_000 {
                    pause().await;
                    Self::drain(rx, got).await;
                    served.extend(got.drain(..).map(|p| p.peer()));
                    if all.iter().all(|a| served.contains(a) || fds(at, *a).is_empty()) {
                        break;
                    }
                }
                served.sort();
                let k = served.len();
                served.dedup();
                assert_eq!(served.len(), k, "more than once");
                drop(cs);
                for _ in 0..10_000 {
                    pause().await;
                    if all.iter().all(|a| fds(at, *a).is_empty()) {
                        break;
                    }
                }
                settle().await;
                k
            });
            return json!({"r": "crowd", "n": served});
        }
        let c = st(a, "c").to_string();
        if op == "open" {
            if self.conns.contains_key(&c) {
                return none;
            }
            let pool = st(a, "side") == "out";
            let at = self.at;
            let (s, peer) = self.rt.block_on(async {
                if pool {
                    let l = TcpListener::bind(own(0)).await.unwrap_or_else(|e| panic!("SCRIPT: bind {e}"));
                    let to = l.local_addr().unwrap();
                    self.pool.send_tcp(to, Bytes::from_static(b"hello")).await.unwrap_or_else(|e| panic!("SCRIPT: pool {e}"));
                    let (s, _) = l.accept().await.unwrap();
                    settle().await;
                    (s, to)
                } else {
                    let s = TcpStream::connect(at).await.unwrap_or_else(|e| panic!("SCRIPT: connect {e}"));
                    let me = s.local_addr().unwrap();
                    // until it is accepted
                    for _ in 0..10_000 {
                        pause().await;
                        if !fds(at, me).is_empty() {
                            break;
                        }
                    }
                    settle().await;
                    (s, me)
                }
            });
            s.set_nodelay(true).unwrap();
            let mut k = Conn { s, peer, pool, dead: false, back: vec![], last: None };
            if pool {
                while k.back.len() < 5 {
                    self.rt.block_on(pause());
                    assert!(!k.read(), "closed at once");
                }
                assert_eq!(k.back, b"hello");
                k.back.clear();
            }
            self.conns.insert(c, k);
            return json!({"r": "ok"});
        }
        let Some(k) = self.conns.get_mut(&c) else { return none };
        if k.dead {
            return none;
        }
        match op {
            "send" => {
                let x = st(a, "x").as_bytes();
                let (rx, got) = (&mut self.rx, &mut self.got);
                self.rt.block_on(Self::push(&k.s, x, rx, got));
                let fs: Vec<String> = self.take(&c).iter().map(|f| text(f)).collect();
                let closed = self.closed(&c, false);
                json!({"r": "got", "fs": fs, "closed": closed})
            }
            "end" => {
                unsafe { libc::shutdown(k.s.as_raw_fd(), libc::SHUT_WR) };
                let closed = self.closed(&c, true);
                let (rx, got) = (&mut self.rx, &mut self.got);
                self.rt.block_on(Self::drain(rx, got));
                let fs: Vec<String> = self.take(&c).iter().map(|f| text(f)).collect();
                self.conns.get_mut(&c).unwrap().dead = true;
                json!({"r": "got", "fs": fs, "closed": closed})
            }
            "reply" => {
                let Some(w) = k.last.clone() else { return none };
                let x = Bytes::copy_from_slice(st(a, "x").as_bytes());
                let done = self.rt.block_on(sip_transport::send_stream(TransportKind::Tcp, &w, x)).is_ok();
                assert!(done, "the writer is gone");
                for _ in 0..3000 {
                    self.rt.block_on(settle());
                    let shut = k.read();
                    if shut || k.back.len() >= st(a, "x").len() {
                        break;
                    }
                    std::thread::sleep(Duration::from_micros(100));
                }
                let x = text(&std::mem::take(&mut k.back));
                json!({"r": "back", "x": x})
            }
            "big" => {
                let x = message(it(a, "h") as usize, it(a, "b") as usize);
                let (rx, got) = (&mut self.rx, &mut self.got);
                self.rt.block_on(Self::push(&k.s, &x, rx, got));
                // either it is delivered or the connection is closed
                let mut fs = self.take(&c);
                for _ in 0..2000 {
                    if !fs.is_empty() || self.closed(&c, false) {
                        break;
                    }
                    let (rx, got) = (&mut self.rx, &mut self.got);
                    self.rt.block_on(Self::drain(rx, got));
                    fs = self.take(&c);
                }
                assert!(fs.is_empty() || (fs.len() == 1 && fs[0] == x), "another message");
                json!({"r": "big", "ok": !fs.is_empty()})
            }
            "flood" => {
                let mut x = message(60, 0);
                x.truncate(50);
                x.resize(it(a, "n") as usize, b'q');
                let (rx, got) = (&mut self.rx, &mut self.got);
                self.rt.block_on(Self::push(&k.s, &x, rx, got));
                assert!(self.take(&c).is_empty());
                let closed = self.closed(&c, x.len() > 65536);
                self.conns.get_mut(&c).unwrap().dead = true;
                // the peer gives up as well
                let k = self.conns.get_mut(&c).unwrap();
                unsafe { libc::shutdown(k.s.as_raw_fd(), libc::SHUT_RDWR) };
                self.rt.block_on(pause());
                json!({"r": "flood", "closed": closed})
            }
            _ => panic!("SCRIPT: op"),
        }
    }
}

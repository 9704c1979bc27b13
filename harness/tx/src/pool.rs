//! Pooled connections: the real connection pool (sip-transport) against peers
//! that listen on loopback addresses of this process, on a clock that the
//! script moves.
use crate::stream::{fds_to, own, pause, settle};
use crate::{clock, it, st, Sut};
use bytes::Bytes;
use serde_json::{json, Value};
use sip_transport::pool::{ConnectionEvent, ConnectionPool};
use sip_transport::InboundPacket;
use std::collections::{BTreeMap, BTreeSet};
use std::net::SocketAddr;
use std::os::fd::AsRawFd;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::time::Duration;
use tokio::net::{TcpListener, TcpStream};
use tokio::sync::{broadcast, mpsc};

struct Peer {
    at: SocketAddr,
    listen: Option<TcpListener>,
    conns: Vec<Conn>,
    named: u64,
}
struct Conn {
    s: TcpStream,
    name: u64, // 0 until something has arrived
    open: bool,
    held: bool, // not read for the moment
    got: Vec<u8>,
}
pub struct A {
    peers: BTreeMap<String, Peer>,
    rt: tokio::runtime::Runtime,
    pool: Arc<ConnectionPool>,
    ev: broadcast::Receiver<ConnectionEvent>,
    _rx: mpsc::Receiver<InboundPacket>,
}
pub fn make(cfg: &Value) -> Box<dyn Sut> {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let (tx, rx) = mpsc::channel(64);
    let ka = it(cfg, "ka");
    let pool = ConnectionPool::with_limits(it(cfg, "max") as usize, Duration::from_secs(it(cfg, "idle") as u64))
        .with_keepalive_interval(if ka > 0 { Some(Duration::from_millis(ka as u64)) } else { None });
    rt.block_on(pool.set_inbound_tx(tx));
    let ev = pool.subscribe_events();
    Box::new(A { peers: BTreeMap::new(), rt, pool: Arc::new(pool), ev, _rx: rx })
}
impl Peer {
    fn accept(&mut self) {
        let Some(l) = &self.listen else { return };
        loop {
            let fd = unsafe { libc::accept4(l.as_raw_fd(), std::ptr::null_mut(), std::ptr::null_mut(), libc::SOCK_NONBLOCK | libc::SOCK_CLOEXEC) };
            if fd < 0 {
                return;
            }
            let s = unsafe { <std::net::TcpStream as std::os::fd::FromRawFd>::from_raw_fd(fd) };
            self.conns.push(Conn { s: TcpStream::from_std(s).unwrap(), name: 0, open: true, held: false, got: vec![] });
        }
    }
    fn read(&mut self) {
        self.accept();
        let mut b = vec![0u8; 65536];
        for c in self.conns.iter_mut().filter(|c| c.open && !c.held) {
            loop {
                let n = unsafe { libc::recv(c.s.as_raw_fd(), b.as_mut_ptr() as *mut libc::c_void, b.len(), libc::MSG_DONTWAIT) };
                if n > 0 {
                    if c.name == 0 {
                        self.named += 1;
                        c.name = self.named;
                    }
                    c.got.extend_from_slice(&b[..n as usize]);
                    continue;
                }
                if n == 0 || std::io::Error::last_os_error().kind() != std::io::ErrorKind::WouldBlock {
                    c.open = false;
                }
                break;
            }
        }
    }
    fn open(&self) -> usize {
        self.conns.iter().filter(|c| c.open).count()
    }
}
impl A {
    /// lets everything on its way arrive: all bytes, and every connection the
    /// pool has closed
    fn quiet(&mut self) {
        for round in 0..4000 {
            {
                let _g = self.rt.enter();
                for p in self.peers.values_mut() {
                    p.read();
                }
            }
            self.rt.block_on(settle());
            let mut busy = false;
            for p in self.peers.values() {
                let fds = fds_to(p.at);
                if p.conns.iter().any(|c| c.open && c.held) {
                    continue;
                }
                busy |= fds.len() != p.open();
                for fd in fds {
                    let mut n: libc::c_int = 0;
                    unsafe { libc::ioctl(fd, libc::TIOCOUTQ, &mut n) };
                    busy |= n > 0;
                }
            }
            if !busy && round > 1 {
                break;
            }
            if round > 1 {
                self.rt.block_on(pause());
            }
        }
        let _g = self.rt.enter();
        for p in self.peers.values_mut() {
            p.read();
        }
    }
    /// what has happened since the last look
    fn look(&mut self, mut o: Value) -> Value {
        self.quiet();
        let (mut seen, mut shut, mut ev) = (vec![], vec![], BTreeSet::new());
        for (n, p) in self.peers.iter_mut() {
            for c in p.conns.iter_mut() {
                if !c.got.is_empty() {
                    seen.push(json!({"p": n, "c": c.name, "x": String::from_utf8_lossy(&c.got)}));
                    c.got.clear();
                }
                if !c.open && c.name > 0 {
                    shut.push(json!({"p": n, "c": c.name}));
                }
            }
            p.conns.retain(|c| c.open);
        }
        while let Ok(e) = self.ev.try_recv() {
            let (peer, k) = match e {
                ConnectionEvent::Closed { peer, .. } => (peer, "closed"),
                ConnectionEvent::Failed { peer, .. } => (peer, "failed"),
            };
            for (n, p) in &self.peers {
                if p.at == peer {
                    ev.insert((n.clone(), k));
                }
            }
        }
        let ev: Vec<Value> = ev.into_iter().map(|(p, k)| json!({"p": p, "k": k})).collect();
        o["seen"] = json!(seen);
        o["shut"] = json!(shut);
        o["ev"] = json!(ev);
        o["n"] = json!(self.pool.len());
        o["empty"] = json!(self.pool.is_empty());
        o
    }
}
impl Sut for A {
    fn step(&mut self, a: &Value) -> Value {
        let op = st(a, "op");
        match op {
            "up" => {
                let rt = &self.rt;
                let p = self.peers.entry(st(a, "p").into()).or_insert_with(|| {
                    let l = rt.block_on(TcpListener::bind(own(0))).unwrap_or_else(|e| panic!("SCRIPT: bind {e}"));
                    Peer { at: l.local_addr().unwrap(), listen: Some(l), conns: vec![], named: 0 }
                });
                if p.listen.is_none() {
                    p.listen = Some(rt.block_on(TcpListener::bind(p.at)).unwrap_or_else(|e| panic!("SCRIPT: bind again {e}")));
                }
                return self.look(json!({"r": "up"}));
            }
            "down" => {
                if let Some(p) = self.peers.get_mut(st(a, "p")) {
                    p.listen = None;
                }
                return self.look(json!({"r": "down"}));
            }
            "wait" => {
                for _ in 0..it(a, "n") * 10 {
                    clock::advance_ms(100);
                    self.rt.block_on(async {
                        for _ in 0..3 {
                            tokio::task::yield_now().await;
                        }
                    });
                }
                return self.look(json!({"r": "waited"}));
            }
            "clean" => {
                let k = self.rt.block_on(async { self.pool.cleanup_idle() });
                return self.look(json!({"r": "clean", "k": k}));
            }
            _ => {}
        }
        let Some(p) = self.peers.get(st(a, "p")) else { return self.look(json!({"r": "none"})) };
        let at = p.at;
        match op {
            "send" => {
                let xs: Vec<Bytes> = a["xs"].as_array().unwrap().iter().map(|x| Bytes::copy_from_slice(x.as_str().unwrap().as_bytes())).collect();
                let pool = self.pool.clone();
                let ok: Vec<bool> = if a["conc"] == json!(true) {
                    self.rt.block_on(async {
                        let t: Vec<_> = xs
                            .into_iter()
                            .map(|x| {
                                let pool = pool.clone();
                                tokio::spawn(async move { pool.send_tcp(at, x).await.is_ok() })
                            })
                            .collect();
                        let mut ok = vec![];
                        for t in t {
                            ok.push(t.await.unwrap());
                        }
                        ok
                    })
                } else {
                    self.rt.block_on(async {
                        let mut ok = vec![];
                        for x in xs {
                            ok.push(pool.send_tcp(at, x).await.is_ok());
                            settle().await;
                        }
                        ok
                    })
                };
                self.look(json!({"r": "sent", "ok": ok}))
            }
            "close" => {
                let p = self.peers.get_mut(st(a, "p")).unwrap();
                if p.conns.is_empty() {
                    return self.look(json!({"r": "none"}));
                }
                for c in p.conns.iter() {
                    unsafe { libc::shutdown(c.s.as_raw_fd(), libc::SHUT_WR) };
                }
                for _ in 0..400 {
                    self.rt.block_on(pause());
                    if fds_to(at).is_empty() {
                        break;
                    }
                }
                self.look(json!({"r": "close"}))
            }
            "stall" => {
                // the peer stops reading; more than fits anywhere is sent to it
                let q = st(a, "q").to_string();
                let Some(to) = self.peers.get(&q).map(|q| q.at) else { return self.look(json!({"r": "none"})) };
                let p = self.peers.get_mut(st(a, "p")).unwrap();
                if p.conns.is_empty() || self.pool.is_empty() {
                    return self.look(json!({"r": "none"}));
                }
                for c in p.conns.iter_mut() {
                    c.held = true;
                }
                const K: usize = 110;
                const L: usize = 256 * 1024;
                let t: Vec<_> = (0..K)
                    .map(|i| {
                        let pool = self.pool.clone();
                        self.rt.spawn(async move { pool.send_tcp(at, Bytes::from(vec![i as u8; L])).await.is_ok() })
                    })
                    .collect();
                for _ in 0..20 {
                    self.rt.block_on(pause());
                }
                let done = Arc::new(AtomicBool::new(false));
                {
                    let (pool, done) = (self.pool.clone(), done.clone());
                    std::thread::spawn(move || {
                        let _ = pool.len();
                        done.store(true, SeqCst);
                    });
                }
                for _ in 0..5000 {
                    if done.load(SeqCst) {
                        break;
                    }
                    std::thread::sleep(Duration::from_millis(1));
                }
                if !done.load(SeqCst) {
                    return json!({"r": "blocked"});
                }
                let pool = self.pool.clone();
                let other = to == at || self.rt.block_on(async move { pool.send_tcp(to, Bytes::from_static(b"other")).await.is_ok() });
                self.rt.block_on(settle());
                let p = self.peers.get_mut(st(a, "p")).unwrap();
                for c in p.conns.iter_mut() {
                    c.held = false;
                }
                let (mut ok, mut all) = (true, vec![]);
                for _ in 0..20_000 {
                    self.quiet();
                    for c in self.peers.get_mut(st(a, "p")).unwrap().conns.iter_mut() {
                        all.append(&mut c.got);
                    }
                    if all.len() >= K * L {
                        break;
                    }
                }
                for t in t {
                    ok &= self.rt.block_on(t).unwrap();
                }
                // each message whole and once, in any order
                let mut which: Vec<u8> = all.chunks(L).map(|c| c[0]).collect();
                let whole = all.len() == K * L && all.chunks(L).all(|c| c.iter().all(|b| *b == c[0]));
                which.sort();
                which.dedup();
                self.look(json!({"r": "stall", "ok": ok, "other": other, "whole": whole && which.len() == K}))
            }
            _ => panic!("SCRIPT: op"),
        }
    }
}

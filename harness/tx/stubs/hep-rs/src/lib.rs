//! Stand-in for the capture library: the types sip-hep names, no behaviour.
use std::net::SocketAddr;
use std::time::SystemTime;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum HepProtocol {
    Sip,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum IpProto {
    Udp,
    Tcp,
    Tls,
    Sctp,
}
#[derive(Debug, Clone)]
pub struct HepPacket {
    pub capture_id: u32,
    pub capture_password: Option<String>,
    pub protocol: HepProtocol,
    pub transport: IpProto,
    pub src: SocketAddr,
    pub dst: SocketAddr,
    pub timestamp: SystemTime,
    pub correlation_id: Option<String>,
    pub payload: Vec<u8>,
}
pub trait HepSink: Send + Sync {
    fn send(&self, packet: HepPacket);
}

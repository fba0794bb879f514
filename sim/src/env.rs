//! The simulated environment behind the library's seam: per-node clocks, per-node randomness, UDP sockets.

use crate::alloc::{scope, TAG_HARNESS};
use crate::rng::Rng;
use std::cell::{Cell, RefCell};
use std::collections::{HashMap, VecDeque};
use std::io;
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::rc::Rc;

pub struct Node {
    pub skew_ppm: i64,
    pub offset_ns: u64,
    pub rng: Rng,
    /// The next number drawn, if it is chosen rather than random.
    pub edge: Option<u64>,
    pub ip: IpAddr,
    pub next_port: u16,
}

impl Node {
    pub fn local_ns(&self, now_us: u64) -> u64 {
        let t = now_us as i128 * 1000;
        (t + t * self.skew_ppm as i128 / 1_000_000) as u64 + self.offset_ns
    }
}

pub struct Sock {
    pub node: usize,
    pub addr: SocketAddr,
    pub peer: Option<SocketAddr>,
    pub inbox: VecDeque<(SocketAddr, Vec<u8>, u64)>,
    pub open: bool,
    pub cap: usize,
}

/// What the library did with its sockets, in order.
pub enum Io {
    Sent { node: usize, from: SocketAddr, to: SocketAddr, data: Vec<u8>, failed: bool },
    Read { sock: usize, from: SocketAddr, data: Vec<u8>, arrived: u64 },
}

#[derive(Default)]
pub struct Udp {
    pub socks: Vec<Sock>,
    pub by_addr: HashMap<SocketAddr, usize>,
    pub log: Vec<Io>,
    /// Sockets whose next receive call fails once.
    pub recv_error: Vec<usize>,
    /// Port the next ephemeral bind of a node is given, if the plan fixes it (same-address reconnect).
    pub force_port: Option<u16>,
    pub overflow: u64,
    pub send_errors: u64,
    /// Nodes whose send calls fail until the given time.
    pub fail_sends: HashMap<usize, u64>,
}

pub struct Env {
    pub now_us: Cell<u64>,
    pub cur: Cell<usize>,
    pub nodes: RefCell<Vec<Node>>,
    pub udp: RefCell<Udp>,
    pub rand_draws: Cell<u64>,
}

impl Env {
    pub fn new() -> Rc<Env> {
        Rc::new(Env {
            now_us: Cell::new(0),
            cur: Cell::new(0),
            nodes: RefCell::new(Vec::new()),
            udp: RefCell::new(Udp::default()),
            rand_draws: Cell::new(0),
        })
    }

    pub fn add_node(&self, seed: u64, skew_ppm: i64, offset_ns: u64) -> usize {
        let mut n = self.nodes.borrow_mut();
        let id = n.len();
        n.push(Node {
            skew_ppm,
            offset_ns,
            rng: Rng::stream(seed, 0x0DE0 + id as u64),
            edge: None,
            ip: IpAddr::V4(Ipv4Addr::new(10, 0, (id >> 8) as u8, id as u8 + 1)),
            next_port: 40000,
        });
        id
    }

    pub fn local_ns(&self, node: usize) -> u64 {
        self.nodes.borrow()[node].local_ns(self.now_us.get())
    }

    /// Deliver a datagram to whatever socket is bound to `to`; false if there is none (or its buffer is full).
    pub fn arrive(&self, from: SocketAddr, to: SocketAddr, data: Vec<u8>) -> bool {
        let mut u = self.udp.borrow_mut();
        let now = self.now_us.get();
        let Some(&i) = u.by_addr.get(&to) else { return false };
        let s = &mut u.socks[i];
        if !s.open || s.peer.map_or(false, |p| p != from) {
            return false;
        }
        if s.inbox.len() >= s.cap {
            u.overflow += 1;
            return false;
        }
        s.inbox.push_back((from, data, now));
        true
    }
}

impl uflow::verif::Backend for Env {
    fn now_ns(&self) -> u64 {
        self.local_ns(self.cur.get())
    }

    fn random_u64(&self) -> u64 {
        self.rand_draws.set(self.rand_draws.get() + 1);
        let n = &mut self.nodes.borrow_mut()[self.cur.get()];
        let v = n.rng.u64();
        n.edge.take().unwrap_or(v)
    }

    fn udp_bind(&self, addr: SocketAddr) -> io::Result<(u64, SocketAddr)> {
        let _h = scope(TAG_HARNESS);
        let node = self.cur.get();
        let mut nodes = self.nodes.borrow_mut();
        let mut u = self.udp.borrow_mut();
        let n = &mut nodes[node];
        let ip = if addr.ip().is_unspecified() { n.ip } else { addr.ip() };
        let port = if addr.port() != 0 {
            addr.port()
        } else if let Some(p) = u.force_port.take() {
            p
        } else {
            n.next_port += 1;
            n.next_port
        };
        let a = SocketAddr::new(ip, port);
        if let Some(&i) = u.by_addr.get(&a) {
            if u.socks[i].open {
                return Err(io::Error::from(io::ErrorKind::AddrInUse));
            }
        }
        let id = u.socks.len();
        u.socks.push(Sock { node, addr: a, peer: None, inbox: VecDeque::new(), open: true, cap: 4096 });
        u.by_addr.insert(a, id);
        Ok((id as u64, a))
    }

    fn udp_connect(&self, socket: u64, peer: SocketAddr) -> io::Result<()> {
        let _h = scope(TAG_HARNESS);
        let mut u = self.udp.borrow_mut();
        let s = &mut u.socks[socket as usize];
        s.peer = Some(peer);
        s.inbox.retain(|(f, _, _)| *f == peer);
        Ok(())
    }

    fn udp_send(&self, socket: u64, to: SocketAddr, data: &[u8]) -> io::Result<usize> {
        let _h = scope(TAG_HARNESS);
        let mut u = self.udp.borrow_mut();
        let s = &u.socks[socket as usize];
        let (node, from) = (s.node, s.addr);
        let failed = u.fail_sends.get(&node).map_or(false, |t| self.now_us.get() < *t);
        u.log.push(Io::Sent { node, from, to, data: data.to_vec(), failed });
        if failed {
            u.send_errors += 1;
            return Err(io::Error::from(io::ErrorKind::WouldBlock));
        }
        Ok(data.len())
    }

    fn udp_recv(&self, socket: u64, buf: &mut [u8]) -> io::Result<(usize, SocketAddr)> {
        let _h = scope(TAG_HARNESS);
        let mut u = self.udp.borrow_mut();
        if let Some(k) = u.recv_error.iter().position(|s| *s == socket as usize) {
            u.recv_error.remove(k);
            return Err(io::Error::from(io::ErrorKind::ConnectionRefused));
        }
        match u.socks[socket as usize].inbox.pop_front() {
            None => Err(io::Error::from(io::ErrorKind::WouldBlock)),
            Some((from, data, t)) => {
                // As on Linux, an oversized datagram is cut to the buffer.
                let n = data.len().min(buf.len());
                buf[..n].copy_from_slice(&data[..n]);
                let mut data = data;
                data.truncate(n);
                u.log.push(Io::Read { sock: socket as usize, from, data, arrived: t });
                Ok((n, from))
            }
        }
    }

    fn udp_local_addr(&self, socket: u64) -> io::Result<SocketAddr> {
        Ok(self.udp.borrow().socks[socket as usize].addr)
    }

    fn udp_close(&self, socket: u64) {
        let _h = scope(TAG_HARNESS);
        let mut u = self.udp.borrow_mut();
        let s = &mut u.socks[socket as usize];
        s.open = false;
        s.inbox.clear();
    }
}

//! A real `Server` and real `Client`s on a simulated datagram network: handshakes, disconnects, timeouts, limits,
//! restarts, crashes, spoofed and malformed datagrams.
//!
//! Every datagram read or sent by the library is fed, in order, to a reference model of each connection attempt as
//! seen from either side (`Inc`: one client object; `Sess`: one offer of the server to an address). The model follows
//! the observable protocol only (frames and events); the checks compare events, replies and timing with it.

use crate::alloc::{self, TAG_LIB, TAG_RX};
use crate::ctx::{lib, Ctx, NetCond};
use crate::env::{Env, Io};
use crate::flow::{self, Flow, Mapped, RE, TS, UN};
use crate::hostile;
use crate::link::brief;
use crate::plan::Plan;
use crate::rng::{mix2, Rng};
use crate::watch::RateWatch;
use crate::wire::{seal, Fr, FRAG, ID_MASK, MAX_FRAME};
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap};
use std::net::{IpAddr, Ipv4Addr, SocketAddr};
use std::rc::Rc;
use uflow::client::{self, Client};
use uflow::server::{self, RemoteClient, Server};
use uflow::EndpointConfig;

pub const RESEND_MS: u64 = 2000;
pub const TRANSMISSIONS: usize = 11;
const BUDGET_MS: u64 = 22_000;
/// Longer than an ended connection may linger.
const LINGER_MS: u64 = 25_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Ph {
    Pending,
    Active,
    Closing,
    Closed,
    Fin,
}

#[derive(Debug)]
enum Evt {
    Connect,
    Recv(Box<[u8]>),
    Disc,
    /// 0 timeout, 1 version, 2 config, 3 server full
    Err(u8),
}

/// What one side of a connection knows and owes, common to both sides.
struct Side {
    ph: Ph,
    connects: u32,
    terminal: Option<(u8, u64)>,
    /// local time of the transmissions of the current handshake or disconnect request
    hs_ms: Vec<u64>,
    disc_ms: Vec<u64>,
    disc_us: Option<u64>,
    strict_ms: u64,
    loose_ms: u64,
    /// (flush only, packets submitted before it)
    disc_call: Option<(bool, usize)>,
    now_due: bool,
    closed_ms: u64,
    ack_due: u32,
    expect: Vec<&'static str>,
    flow: Flow,
    watch: RateWatch,
    view: hostile::View,
    rtt: f64,
    peer_alloc: usize,
    probes: Vec<usize>,
    /// first sequence number, and those after the latest frame and packet which it has told of
    seq: (u32, u32, u32),
}

impl Side {
    fn new(seed: u64, dir: u8, first: u32, peer_first: u32) -> Side {
        Side {
            ph: Ph::Pending,
            connects: 0,
            terminal: None,
            hs_ms: vec![],
            disc_ms: vec![],
            disc_us: None,
            strict_ms: 0,
            loose_ms: 0,
            disc_call: None,
            now_due: false,
            closed_ms: 0,
            ack_due: 0,
            expect: vec![],
            flow: Flow::new(seed, dir, first),
            watch: RateWatch::new(0),
            view: hostile::View {
                rx_frame: peer_first,
                rx_packet: peer_first & ID_MASK,
                rx_packet_next: peer_first & ID_MASK,
                tx_frame_base: first,
                tx_frame_next: first,
                tx_packet_base: first & ID_MASK,
                tx_packet_next: first & ID_MASK,
                win: 4096,
                ..Default::default()
            },
            rtt: 0.0,
            peer_alloc: usize::MAX,
            probes: vec![],
            seq: (first, first, first & ID_MASK),
        }
    }
}

struct Inc {
    slot: usize,
    addr: SocketAddr,
    sock: usize,
    client: Option<Client>,
    created_ns: u64,
    steps: u64,
    nonce: u32,
    cfg: EndpointConfig,
    s: Side,
    app_fin: bool,
    /// server nonce of the SYN-ACK the connection was established with
    sn: Option<u32>,
    /// handshake acknowledgements sent; repeated SYN-ACKs read while established
    acks: u32,
    repeats: u32,
    sess: Option<usize>,
    tainted: bool,
    /// the address was used by an earlier client object
    reused: bool,
    last_step_ms: u64,
    max_gap_ms: u64,
}

struct Sess {
    addr: SocketAddr,
    cn: u32,
    sn: u32,
    s: Side,
    inc: Option<usize>,
    tainted: bool,
    epoch: u32,
    /// ended by the application (Server::drop, server object dropped)
    dropped: bool,
    gone: bool,
    rate: u32,
    cause_forged: bool,
}

struct Slot {
    node: usize,
    cur: Option<usize>,
    interval: u64,
    jitter: u64,
    flush_ppm: i64,
    rng: Rng,
    stalled_until: u64,
    hostile_rng: Rng,
}

/// Another number much like `x`.
fn near(r: &mut Rng, x: u32) -> u32 {
    let y = match r.below(5) {
        0 => x ^ (1 << r.below(32)),
        1 => x.wrapping_add(1 + r.below(5) as u32),
        2 => (x & 0xFFFF) | (r.u64() as u32) << 16,
        3 => (x & 0xFFFF_0000) | (r.u64() as u32) >> 16,
        _ => r.pick(&[x.swap_bytes(), !x, x.rotate_left(8), x & 0xF_FFFF, x >> 1]),
    };
    if y == x { x ^ 0x8000_0000 } else { y }
}

/// A connection request the server has read and owes an answer.
struct Expect {
    addr: SocketAddr,
    nonce: u32,
    version_bad: bool,
    config_bad: bool,
    got: bool,
    /// a previous connection of the address has ended
    ended: bool,
    rate: u32,
    alloc: u32,
}

#[derive(Default, Clone)]
struct Account {
    rx: u64,
    tx: u64,
    verified: bool,
}

enum Ev {
    Tick(usize),
    STick(u32),
    Arrive(SocketAddr, SocketAddr, Vec<u8>),
    Op(usize),
    Restart,
    Send { side: i64, slot: usize, ch: u8, mode: u8, size: usize, left: i64, period: u64 },
    Hostile { side: i64, slot: usize, kind: i64, left: i64, period: u64 },
    Raw { id: i64, what: i64, arg: i64, left: i64, period: u64 },
}

struct Item(u64, u64, Ev);
impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        (self.0, self.1) == (o.0, o.1)
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.0, self.1).cmp(&(o.0, o.1))
    }
}

struct Net<'a, 'b> {
    plan: &'a Plan,
    ctx: &'a mut Ctx<'b>,
    env: Rc<Env>,
    server: Option<Server>,
    saddr: SocketAddr,
    ssock: usize,
    scfg: EndpointConfig,
    max_total: usize,
    max_active: usize,
    errs: bool,
    screated_ns: u64,
    ssteps: u64,
    epoch: u32,
    sinterval: u64,
    sjitter: u64,
    sflush: i64,
    srng: Rng,
    sstalled: u64,
    slast_ms: u64,
    smax_gap: u64,
    slots: Vec<Slot>,
    incs: Vec<Inc>,
    sess: Vec<Sess>,
    /// latest offer per address
    cur: BTreeMap<SocketAddr, usize>,
    /// per address, what the application sees: connected?
    app_conn: BTreeSet<SocketAddr>,
    acct: BTreeMap<SocketAddr, Account>,
    expects: Vec<Expect>,
    /// sessions tracked / established or connecting when the previous step ended (before any drop since)
    prev_tracked: usize,
    /// server time of the previous step
    prev_ms: u64,
    /// sessions which take up the room of an established connection; one which ended may do so for one step more
    busy: Vec<(usize, Option<u64>)>,
    /// sessions which ended and were followed by a new offer within the current step
    superseded: Vec<usize>,
    /// requests refused within the current step
    refused: Vec<(SocketAddr, u8)>,
    new_offers: usize,
    nets: Vec<NetCond>,
    handles: Vec<(SocketAddr, Rc<RefCell<RemoteClient>>)>,
    q: BinaryHeap<Reverse<Item>>,
    seq: u64,
    now: u64,
    nonces: BTreeSet<(usize, u32)>,
    frags: u64,
    last_progress: (u64, u64),
    clean: bool,
    raw_rng: Rng,
    offers: u64,
    connects: u64,
    raw_nonce: BTreeMap<SocketAddr, u32>,
}

pub fn run(plan: &Plan, ctx: &mut Ctx) {
    let live0 = alloc::live(TAG_LIB) + alloc::live(TAG_RX);
    let blocks0 = alloc::blocks(TAG_LIB) + alloc::blocks(TAG_RX);
    let env = Env::new();
    lib("set_backend", || ());
    uflow::verif::set_backend(Some(env.clone()));
    let nslots = plan.get("slots", 1).clamp(1, 20) as usize;
    let ep = |p: &str| EndpointConfig {
        max_send_rate: plan.get(&format!("{p}rate"), 2_000_000) as usize,
        max_receive_rate: plan.get(&format!("{p}rrate"), 2_000_000) as usize,
        max_packet_size: plan.get(&format!("{p}psize"), 100_000) as usize,
        max_receive_alloc: plan.get(&format!("{p}alloc"), 1_000_000) as usize,
        keepalive: plan.get(&format!("{p}ka"), 5000) >= 0,
        keepalive_interval_ms: plan.get(&format!("{p}ka"), 5000).max(0) as u64,
        active_timeout_ms: plan.get(&format!("{p}to"), 20_000) as u64,
    };
    let off = |n: u64| 1_000_000_000 + mix2(plan.seed, n) % 5_000_000_000;
    env.add_node(plan.seed, plan.get("s_skew", 0), off(0));
    let mut slots = Vec::new();
    for i in 0..nslots {
        let node = env.add_node(plan.seed, plan.get(&format!("skew{i}"), 0), off(i as u64 + 1));
        slots.push(Slot {
            node,
            cur: None,
            interval: plan.get(&format!("tick{i}"), plan.get("tick", 15_000)).max(100) as u64,
            jitter: plan.get("jit", 0) as u64,
            flush_ppm: plan.get("fl", 0),
            rng: Rng::stream(plan.seed, 0x5107 + i as u64),
            stalled_until: 0,
            hostile_rng: Rng::stream(plan.seed, 0x4057 + i as u64),
        });
    }
    let mut n = Net {
        plan,
        ctx,
        env: env.clone(),
        server: None,
        saddr: SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 0, 0, 1)), 7777),
        ssock: 0,
        scfg: ep("s_"),
        max_total: plan.get("max_total", 64) as usize,
        max_active: plan.get("max_active", 64) as usize,
        errs: plan.get("errs", 0) != 0,
        screated_ns: 0,
        ssteps: 0,
        epoch: 0,
        sinterval: plan.get("s_tick", 15_000).max(100) as u64,
        sjitter: plan.get("s_jit", 0) as u64,
        sflush: plan.get("s_fl", 0),
        srng: Rng::stream(plan.seed, 0x5E77),
        sstalled: 0,
        slast_ms: 0,
        smax_gap: 0,
        slots,
        incs: vec![],
        sess: vec![],
        cur: BTreeMap::new(),
        app_conn: BTreeSet::new(),
        acct: BTreeMap::new(),
        expects: vec![],
        prev_tracked: 0,
        prev_ms: 0,
        busy: vec![],
        superseded: vec![],
        refused: vec![],
        new_offers: 0,
        nets: (0..2 * nslots as u32).map(|d| NetCond::new(plan.seed, d)).collect(),
        handles: vec![],
        q: BinaryHeap::new(),
        seq: 0,
        now: 0,
        nonces: BTreeSet::new(),
        frags: 0,
        last_progress: (0, 0),
        clean: false,
        raw_rng: Rng::stream(plan.seed, 0x4A3),
        offers: 0,
        connects: 0,
        raw_nonce: BTreeMap::new(),
    };
    n.bind();
    for i in 0..nslots {
        let d = n.slots[i].interval;
        let t = n.slots[i].rng.below(d + 1);
        n.push(t, Ev::Tick(i));
    }
    for (i, o) in plan.ops.iter().enumerate() {
        n.push(o.t, Ev::Op(i));
    }
    n.main_loop();
    // Teardown.
    let handles = std::mem::take(&mut n.handles);
    let srv = n.server.take();
    let cls: Vec<_> = n.incs.iter_mut().map(|i| i.client.take()).collect();
    lib("drop", move || {
        drop(handles);
        drop(srv);
        for c in cls {
            drop(c);
        }
    });
    drop(n);
    drop(env);
    uflow::verif::set_backend(None);
    if ctx.is(19) {
        if let Some(f) = alloc::take_fault() {
            ctx.fail(19, "heap", || format!("allocator contract broken: {f:?}"));
        }
        let live = alloc::live(TAG_LIB) + alloc::live(TAG_RX) - live0;
        let blocks = alloc::blocks(TAG_LIB) + alloc::blocks(TAG_RX) - blocks0;
        if live != 0 || blocks != 0 {
            ctx.fail(19, "leak", || format!("{live} bytes in {blocks} blocks not returned after dropping server and clients"));
        }
    }
}

fn client_err(e: &client::ErrorType) -> u8 {
    match e {
        client::ErrorType::Timeout => 0,
        client::ErrorType::Version => 1,
        client::ErrorType::Config => 2,
        client::ErrorType::ServerFull => 3,
    }
}

fn server_err(e: &server::ErrorType) -> u8 {
    match e {
        server::ErrorType::Timeout => 0,
        server::ErrorType::Version => 1,
        server::ErrorType::Config => 2,
        server::ErrorType::ServerFull => 3,
    }
}

fn err_name(e: u8) -> &'static str {
    ["Timeout", "Version", "Config", "ServerFull"][e as usize & 3]
}

impl Net<'_, '_> {
    fn push(&mut self, t: u64, ev: Ev) {
        self.seq += 1;
        self.q.push(Reverse(Item(t, self.seq, ev)));
    }

    /// Some first nonces, and thereby the first sequence numbers, lie at the edges of their range.
    fn edge(&mut self, node: usize) {
        let mut r = Rng::stream(self.plan.seed, 0xED6E + node as u64);
        if !r.one_in(3) {
            return;
        }
        let near = r.below(40) as u32;
        let v = match r.below(6) {
            0 => 0,
            1 => u32::MAX,
            2 => near,
            3 => u32::MAX - near,
            4 => (r.u64() as u32 | ID_MASK).wrapping_sub(near),
            _ => 0x8000_0000u32.wrapping_sub(near),
        };
        self.ctx.stats.bump("probe:edge_nonce");
        self.env.nodes.borrow_mut()[node].edge = Some(r.u64() << 32 | v as u64);
    }

    fn bind(&mut self) {
        self.env.cur.set(0);
        let cfg = server::Config {
            max_total_connections: self.max_total,
            max_active_connections: self.max_active,
            enable_handshake_errors: self.errs,
            endpoint_config: self.scfg.clone(),
        };
        let a = self.saddr;
        self.screated_ns = self.env.local_ns(0);
        if self.epoch == 0 {
            self.edge(0);
        }
        let s = lib("bind", || Server::bind(a, cfg).expect("bind"));
        self.ssock = self.env.udp.borrow().by_addr[&a];
        self.server = Some(s);
        self.ssteps = 0;
        self.slast_ms = 0;
        self.epoch += 1;
        self.acct.clear();
        self.prev_tracked = 0;
        self.prev_ms = 0;
        self.busy.clear();
        let e = self.epoch;
        let d = self.sinterval;
        let t = self.now + self.srng.below(d + 1);
        self.push(t, Ev::STick(e));
    }

    fn main_loop(&mut self) {
        let end = self.plan.get("end", 10_000_000) as u64;
        let quiet = self.plan.get("quiet", 0) != 0;
        let limit = self.plan.get("limit", 20_000) as u64 * 1_000_000;
        let stall = self.plan.get("stall_s", 5400) as u64 * 1_000_000;
        let hard = self.plan.get("max_events", 3_000_000) as u64;
        while let Some(Reverse(Item(t, _, ev))) = self.q.pop() {
            if t > end && !quiet {
                break;
            }
            self.now = self.now.max(t);
            self.ctx.now = self.now;
            self.env.now_us.set(self.now);
            self.ctx.events += 1;
            if quiet && !self.clean && self.now > end {
                self.clean = true;
                for n in &mut self.nets {
                    let lat = n.lat.min(300_000);
                    n.apply(&[lat as i64, 0, 0, 0, 0, 511, 1]);
                    n.cut_until = 0;
                    n.burst = 0;
                }
                for s in &mut self.slots {
                    s.stalled_until = 0;
                    s.interval = s.interval.clamp(2_000, 400_000);
                }
                self.sstalled = 0;
                self.sinterval = self.sinterval.clamp(2_000, 400_000);
                self.env.udp.borrow_mut().fail_sends.clear();
            }
            match ev {
                Ev::Tick(i) => self.tick(i),
                Ev::STick(e) => {
                    if e == self.epoch {
                        self.stick();
                    }
                }
                Ev::Arrive(from, to, b) => {
                    if !self.env.arrive(from, to, b) {
                        self.ctx.stats.bump("frames_to_nobody");
                    }
                }
                Ev::Op(i) => self.op(i),
                Ev::Restart => self.bind(),
                Ev::Send { side, slot, ch, mode, size, left, period } => {
                    self.submit(side, slot, ch, mode, size);
                    if left > 1 {
                        self.push(self.now + period, Ev::Send { side, slot, ch, mode, size, left: left - 1, period });
                    }
                }
                Ev::Hostile { side, slot, kind, left, period } => {
                    self.hostile(side, slot, kind);
                    if left > 1 {
                        self.push(self.now + period, Ev::Hostile { side, slot, kind, left: left - 1, period });
                    }
                }
                Ev::Raw { id, what, arg, left, period } => {
                    self.raw(id, what, arg);
                    if left > 1 {
                        self.push(self.now + period, Ev::Raw { id, what, arg, left: left - 1, period });
                    }
                }
            }
            if self.ctx.failed() {
                return;
            }
            if self.now > end && quiet {
                if self.ctx.events % 16 == 0 && self.is_quiet() {
                    break;
                }
                let prog = self.progress();
                if prog != self.last_progress.0 {
                    self.last_progress = (prog, self.now);
                }
                if self.now - self.last_progress.1.max(end) > stall || self.now > end + limit {
                    self.stalled();
                    break;
                }
                if self.ctx.events > hard {
                    self.ctx.stats.bump("info:event_limit");
                    break;
                }
            }
        }
        self.ctx.stats.sim_us += self.now;
        self.ctx.stats.add("offers", self.offers);
        self.ctx.stats.add("connects", self.connects);
        self.ctx.nontrivial |= self.connects > 0 || self.offers > 0 || self.ctx.events > 200;
    }

    fn progress(&self) -> u64 {
        let a: u64 = self.incs.iter().map(|i| i.s.flow.delivered + i.s.flow.base_abs + i.s.terminal.is_some() as u64).sum();
        let b: u64 = self.sess.iter().map(|s| s.s.flow.delivered + s.s.flow.base_abs + s.s.terminal.is_some() as u64).sum();
        a + b + self.frags
    }

    /// A connection both of whose ends are established, agree, and were left alone by attackers.
    fn live_pair(&self, i: usize) -> Option<usize> {
        let inc = &self.incs[i];
        let s = inc.sess?;
        let se = &self.sess[s];
        (inc.client.is_some()
            && inc.s.ph == Ph::Active
            && se.s.ph == Ph::Active
            && !se.dropped
            && !se.gone
            && se.epoch == self.epoch
            && self.server.is_some()
            && !inc.tainted
            && !se.tainted)
            .then_some(s)
    }

    fn is_quiet(&self) -> bool {
        for sl in &self.slots {
            let Some(i) = sl.cur else { continue };
            let inc = &self.incs[i];
            if inc.client.is_none() {
                continue;
            }
            match inc.s.ph {
                Ph::Pending | Ph::Closing => {
                    if !inc.app_fin {
                        return false;
                    }
                }
                Ph::Active => {
                    if inc.s.disc_call.is_some() && !inc.tainted {
                        return false;
                    }
                    if let Some(s) = self.live_pair(i) {
                        let se = &self.sess[s];
                        if se.s.disc_call.is_some() {
                            return false;
                        }
                        let idle = inc.s.flow.rel_left == 0
                            && se.s.flow.rel_left == 0
                            && inc.client.as_ref().unwrap().send_buffer_size() == 0
                            && self.remote_size(inc.addr) == 0;
                        if !idle {
                            return false;
                        }
                        let missing = |f: &Flow, probes: &[usize]| {
                            probes.iter().any(|&k| !f.subs[k].delivered) || (f.ideal && f.first_missing().is_some())
                        };
                        if missing(&inc.s.flow, &inc.s.probes) || missing(&se.s.flow, &se.s.probes) {
                            return false;
                        }
                    } else if !inc.tainted {
                        // Not (any longer) established at the other end: must end by a timeout.
                        if inc.cfg.active_timeout_ms < 400_000 {
                            return false;
                        }
                    }
                }
                _ => {}
            }
        }
        self.sess.iter().all(|s| s.gone || s.dropped || s.s.ph != Ph::Closing)
    }

    fn remote_size(&self, a: SocketAddr) -> usize {
        self.server.as_ref().and_then(|s| s.client(&a)).map_or(0, |c| c.borrow().send_buffer_size())
    }

    fn stalled(&mut self) {
        let secs = (self.now - self.plan.get("end", 0) as u64) / 1_000_000;
        for k in 0..self.slots.len() {
            let Some(i) = self.slots[k].cur else { continue };
            let inc = &self.incs[i];
            if inc.client.is_none() || inc.tainted {
                continue;
            }
            if let Some(s) = self.live_pair(i) {
                let se = &self.sess[s];
                let (a, b) = (inc.s.flow.rel_left, se.s.flow.rel_left);
                let d = format!(
                    "slot {k}: {a} Reliable packets of the client and {b} of the server undelivered, send buffers {} / {}, {secs} s after the network became clean",
                    inc.client.as_ref().unwrap().send_buffer_size(),
                    self.remote_size(inc.addr)
                );
                let disc = inc.s.disc_call.is_some() || se.s.disc_call.is_some();
                for p in [2u8, 7, 11, 3, 20] {
                    self.ctx.fail(p, "stall", || d.clone());
                }
                if self.plan.get("ideal", 0) != 0 {
                    self.ctx.fail(5, "stall", || d.clone());
                }
                if disc {
                    self.ctx.fail(9, "stall", || format!("disconnect() has not taken effect: {d}"));
                }
            } else if inc.s.ph == Ph::Active || inc.s.ph == Ph::Closing || (inc.s.ph == Ph::Pending && !inc.app_fin) {
                let ph = inc.s.ph;
                for p in [10u8, 9] {
                    self.ctx.fail(p, "never_ends", || {
                        format!("slot {k}: client still {ph:?} {secs} s after the network became clean, although the server does not know it")
                    });
                }
            }
        }
    }

    // ---------------------------------------------------------------- operations

    fn op(&mut self, i: usize) {
        let plan = self.plan;
        let o = &plan.ops[i];
        let a = &o.a;
        let g = |i: usize, d: i64| a.get(i).copied().unwrap_or(d);
        if self.ctx.verbose {
            self.ctx.note(|| format!("op {} {:?}", o.k, a));
        }
        let ns = self.slots.len();
        if self.clean && matches!(o.k, "net" | "cut" | "burst" | "stall" | "cadence" | "sendfail" | "recverr" | "restart" | "hostile" | "raw") {
            return;
        }
        match o.k {
            "conn" => self.connect(g(0, 0) as usize % ns, a),
            "send" | "bulk" => {
                // side, slot, channel, mode, size, count, period
                let (side, slot, ch, mode, size) =
                    (g(0, 0), g(1, 0) as usize % ns, g(2, 0) as u8 & 63, g(3, 3) as u8 & 3, g(4, 0) as usize);
                let (count, period) = (g(5, 1), g(6, 0) as u64);
                if period == 0 {
                    for _ in 0..count {
                        self.submit(side, slot, ch, mode, size);
                        if self.ctx.failed() {
                            return;
                        }
                    }
                } else if count > 0 {
                    self.push(self.now, Ev::Send { side, slot, ch, mode, size, left: count, period });
                }
            }
            "probe" => {
                let (side, slot) = (g(0, 0), g(1, 0) as usize % ns);
                // An Unreliable packet is lost when the other end is not established yet.
                let live = self.slots[slot].cur.map_or(false, |i| self.live_pair(i).is_some());
                let modes: &[u8] = if live { &[RE, UN] } else { &[RE] };
                for &mode in modes {
                    if let Some(k) = self.submit(side, slot, 9, mode, 40) {
                        let Some(i) = self.slots[slot].cur else { continue };
                        if side == 0 {
                            self.incs[i].s.probes.push(k);
                        } else if let Some(s) = self.cur.get(&self.incs[i].addr) {
                            self.sess[*s].s.probes.push(k);
                        }
                    }
                }
                self.ctx.stats.bump("probe:probes_sent");
            }
            "disc" | "discnow" => self.disconnect(g(0, 0), g(1, 0) as usize % ns, o.k == "discnow"),
            "crash" => {
                let slot = g(0, 0) as usize % ns;
                if let Some(i) = self.slots[slot].cur.take() {
                    let c = self.incs[i].client.take();
                    self.env.cur.set(self.slots[slot].node);
                    lib("drop_client", || drop(c));
                    if self.incs[i].s.terminal.is_none() {
                        self.ctx.stats.bump("fault:client_crash");
                    }
                    self.incs[i].s.ph = Ph::Fin;
                }
            }
            "restart" => {
                self.handles.clear();
                let s = self.server.take();
                if s.is_some() {
                    self.env.cur.set(0);
                    lib("drop_server", || drop(s));
                    for s in &mut self.sess {
                        if !s.gone {
                            s.gone = true;
                            s.dropped = true;
                            s.s.ph = Ph::Fin;
                        }
                    }
                    self.cur.clear();
                    self.app_conn.clear();
                    self.epoch += 1;
                    let d = g(0, 0).max(0) as u64;
                    self.push(self.now + d, Ev::Restart);
                    self.ctx.stats.bump("fault:server_restart");
                }
            }
            "srvdrop" => {
                let slot = g(0, 0) as usize % ns;
                let Some(i) = self.slots[slot].cur else { return };
                let addr = self.incs[i].addr;
                self.server_drop(addr);
            }
            "net" => {
                // slot (-1 all), direction (0 up, 1 down, 2 both), settings
                for k in 0..ns {
                    for d in 0..2 {
                        if (g(0, -1) < 0 || g(0, -1) as usize % ns == k) && (g(1, 2) == 2 || g(1, 2) == d) {
                            self.nets[2 * k + d as usize].apply(&a[2..]);
                        }
                    }
                }
                self.ctx.stats.bump("fault:net_change");
            }
            "cut" => {
                for k in 0..ns {
                    for d in 0..2 {
                        if (g(0, -1) < 0 || g(0, -1) as usize % ns == k) && (g(1, 2) == 2 || g(1, 2) == d) {
                            let n = &mut self.nets[2 * k + d as usize];
                            n.cut_until = self.now + g(2, 0).max(0) as u64;
                            n.cut_mask = g(3, 511);
                        }
                    }
                }
                self.ctx.stats.bump("fault:partition");
            }
            "burst" => {
                for k in 0..ns {
                    for d in 0..2 {
                        if (g(0, -1) < 0 || g(0, -1) as usize % ns == k) && (g(1, 2) == 2 || g(1, 2) == d) {
                            self.nets[2 * k + d as usize].burst = g(2, 0).max(0) as u32;
                        }
                    }
                }
                self.ctx.stats.bump("fault:burst");
            }
            "stall" => {
                let d = g(1, 0).max(0) as u64;
                if g(0, -1) < 0 {
                    self.sstalled = self.now + d;
                } else {
                    self.slots[g(0, 0) as usize % ns].stalled_until = self.now + d;
                }
                self.ctx.stats.bump("fault:stall");
            }
            "cadence" => {
                let (i, j) = (g(1, 15_000).max(500) as u64, g(2, 0).max(0) as u64);
                if g(0, -1) < 0 {
                    self.sinterval = i;
                    self.sjitter = j;
                } else {
                    let s = &mut self.slots[g(0, 0) as usize % ns];
                    s.interval = i;
                    s.jitter = j;
                }
                self.ctx.stats.bump("fault:cadence_change");
            }
            "flush" => {
                for _ in 0..g(1, 1) {
                    if g(0, -1) < 0 {
                        self.sflush_call();
                    } else {
                        self.cflush(g(0, 0) as usize % ns);
                    }
                }
                self.ctx.stats.bump("fault:extra_flush");
            }
            "sendfail" => {
                let node = if g(0, -1) < 0 { 0 } else { self.slots[g(0, 0) as usize % ns].node };
                self.env.udp.borrow_mut().fail_sends.insert(node, self.now + g(1, 0).max(0) as u64);
                self.ctx.stats.bump("fault:send_error");
            }
            "recverr" => {
                let sock = if g(0, -1) < 0 {
                    Some(self.ssock)
                } else {
                    self.slots[g(0, 0) as usize % ns].cur.map(|i| self.incs[i].sock)
                };
                if let Some(s) = sock {
                    self.env.udp.borrow_mut().recv_error.push(s);
                    self.ctx.stats.bump("fault:recv_error");
                }
            }
            "hostile" => {
                // side attacked (0 client, 1 server), slot, kind, count, period
                self.push(
                    self.now,
                    Ev::Hostile {
                        side: g(0, 0),
                        slot: g(1, 0) as usize % ns,
                        kind: g(2, -1),
                        left: g(3, 1),
                        period: g(4, 1).max(1) as u64,
                    },
                );
            }
            "raw" => {
                // id, what, count, period, argument
                self.push(
                    self.now,
                    Ev::Raw { id: g(0, 0), what: g(1, 0), left: g(2, 1), period: g(3, 1).max(1) as u64, arg: g(4, 0) },
                );
            }
            "clone" => self.stale_handle(g(0, 0) as usize % ns, g(1, 0)),
            _ => {}
        }
    }

    fn server_drop(&mut self, addr: SocketAddr) {
        let Some(s) = self.server.as_mut() else { return };
        self.env.cur.set(0);
        lib("server_drop", || s.drop(&addr));
        if let Some(&k) = self.cur.get(&addr) {
            let se = &mut self.sess[k];
            if !se.gone {
                se.gone = true;
                se.dropped = true;
                se.s.ph = Ph::Fin;
                self.ctx.stats.bump("fault:server_drop");
            }
        }
        self.app_conn.remove(&addr);
    }

    fn connect(&mut self, slot: usize, a: &[i64]) {
        // slot, same port, then overrides: rate, receive rate, packet size, alloc, keepalive, timeout (-2: default)
        let plan = self.plan;
        let old = self.slots[slot].cur;
        if old.map_or(false, |i| self.incs[i].client.is_some()) {
            // A slot runs one client object at a time.
            return;
        }
        let o = |k: usize, name: &str, d: i64| match a.get(k).copied().unwrap_or(-2) {
            -2 => plan.get(&format!("c_{name}"), d),
            v => v,
        };
        let cfg = EndpointConfig {
            max_send_rate: o(2, "rate", 2_000_000) as usize,
            max_receive_rate: o(3, "rrate", 2_000_000) as usize,
            max_packet_size: o(4, "psize", 100_000) as usize,
            max_receive_alloc: o(5, "alloc", 1_000_000) as usize,
            keepalive: o(6, "ka", 5000) >= 0,
            keepalive_interval_ms: o(6, "ka", 5000).max(0) as u64,
            active_timeout_ms: o(7, "to", 20_000) as u64,
        };
        let node = self.slots[slot].node;
        let last_port = self.incs.iter().rev().find(|i| i.slot == slot).map(|i| i.addr.port());
        let reused = a.get(1).copied().unwrap_or(0) != 0 && last_port.is_some();
        if reused {
            self.env.udp.borrow_mut().force_port = last_port;
            self.ctx.stats.bump("probe:address_reused");
        }
        self.env.cur.set(node);
        let created_ns = self.env.local_ns(node);
        let (dst, c2) = (self.saddr, cfg.clone());
        if last_port.is_none() {
            self.edge(node);
        }
        let c = lib("connect", || Client::connect(dst, client::Config { endpoint_config: c2 }).expect("connect"));
        self.env.nodes.borrow_mut()[node].edge = None;
        let addr = c.local_address();
        let sock = self.env.udp.borrow().by_addr[&addr];
        let idx = self.incs.len();
        self.incs.push(Inc {
            slot,
            addr,
            sock,
            client: Some(c),
            created_ns,
            steps: 0,
            nonce: 0,
            cfg,
            s: Side::new(mix2(plan.seed, idx as u64), 0, 0, 0),
            app_fin: false,
            sn: None,
            acks: 0,
            repeats: 0,
            sess: None,
            tainted: false,
            reused,
            last_step_ms: 0,
            max_gap_ms: 0,
        });
        self.slots[slot].cur = Some(idx);
        self.ctx.stats.bump("connection_attempts");
        self.drain(Some(idx), 0);
    }

    /// Returns the index of the packet in the sender's flow.
    fn submit(&mut self, side: i64, slot: usize, ch: u8, mode: u8, size: usize) -> Option<usize> {
        let i = self.slots[slot].cur?;
        if side == 0 {
            let inc = &mut self.incs[i];
            inc.client.as_ref()?;
            let small = ch == flow::SMALL && mode == flow::RE;
            let size = if small { size.min(inc.cfg.max_packet_size) } else { size.min(inc.cfg.max_packet_size).max(flow::HDR.min(inc.cfg.max_packet_size)) };
            if (size < flow::HDR && !small) || !matches!(inc.s.ph, Ph::Pending | Ph::Active) || inc.app_fin {
                // Ignored by the library; check that it copes.
                self.env.cur.set(self.slots[slot].node);
                let c = inc.client.as_mut().unwrap();
                if !matches!(inc.s.ph, Ph::Pending | Ph::Active) || inc.app_fin {
                    lib("send", || c.send(vec![1u8; size].into_boxed_slice(), 0, uflow::SendMode::Reliable));
                }
                return None;
            }
            let steps = inc.steps;
            let p = inc.s.flow.submit(self.now, steps, ch, mode, size);
            self.env.cur.set(self.slots[slot].node);
            let c = inc.client.as_mut().unwrap();
            lib("send", || c.send(p.as_slice().into(), ch as usize, flow::mode_of(mode)));
            let k = inc.s.flow.subs.len() - 1;
            self.ctx.stats.bump("submissions");
            self.after_client(i);
            Some(k)
        } else {
            let addr = self.incs[i].addr;
            let rc = self.server.as_ref()?.client(&addr)?.clone();
            let k = *self.cur.get(&addr)?;
            let size = size.min(self.scfg.max_packet_size);
            if size < flow::HDR && !(ch == flow::SMALL && mode == flow::RE) {
                return None;
            }
            self.env.cur.set(0);
            if self.sess[k].s.ph != Ph::Active {
                lib("send", || rc.borrow_mut().send(vec![1u8; size].into_boxed_slice(), 0, uflow::SendMode::Reliable));
                lib("drop_handle", move || drop(rc));
                return None;
            }
            let steps = self.ssteps;
            let p = self.sess[k].s.flow.submit(self.now, steps, ch, mode, size);
            lib("send", || rc.borrow_mut().send(p.as_slice().into(), ch as usize, flow::mode_of(mode)));
            lib("drop_handle", move || drop(rc));
            let n = self.sess[k].s.flow.subs.len() - 1;
            self.ctx.stats.bump("submissions");
            self.after_server_one(k);
            Some(n)
        }
    }

    fn disconnect(&mut self, side: i64, slot: usize, now: bool) {
        let Some(i) = self.slots[slot].cur else { return };
        if side == 0 {
            let node = self.slots[slot].node;
            let inc = &mut self.incs[i];
            let Some(c) = inc.client.as_mut() else { return };
            if inc.s.disc_call.map_or(false, |d| !d.0) && !now {
                // disconnect() after disconnect_now() would weaken the request: not part of any property.
                return;
            }
            self.env.cur.set(node);
            lib("disconnect", || if now { c.disconnect_now() } else { c.disconnect() });
            match inc.s.ph {
                Ph::Pending => inc.app_fin = true,
                Ph::Active => {
                    let n = inc.s.flow.subs.len();
                    if now {
                        inc.s.disc_call = Some((false, n));
                        inc.s.now_due = true;
                    } else if inc.s.disc_call.is_none() {
                        inc.s.disc_call = Some((true, n));
                    }
                }
                _ => {}
            }
        } else {
            let addr = self.incs[i].addr;
            let Some(rc) = self.server.as_ref().and_then(|s| s.client(&addr)).cloned() else { return };
            let Some(&k) = self.cur.get(&addr) else { return };
            let se = &mut self.sess[k];
            if !(se.s.disc_call.map_or(false, |d| !d.0) && !now) {
                self.env.cur.set(0);
                lib("disconnect", || if now { rc.borrow_mut().disconnect_now() } else { rc.borrow_mut().disconnect() });
                if se.s.ph == Ph::Active {
                    let n = se.s.flow.subs.len();
                    if now {
                        se.s.disc_call = Some((false, n));
                        se.s.now_due = true;
                    } else if se.s.disc_call.is_none() {
                        se.s.disc_call = Some((true, n));
                    }
                }
            }
            lib("drop_handle", move || drop(rc));
        }
        self.ctx.stats.bump(if now { "probe:disconnect_now_calls" } else { "probe:disconnect_calls" });
    }

    /// Handles the application keeps after the server has forgotten the connection.
    fn stale_handle(&mut self, slot: usize, what: i64) {
        let Some(i) = self.slots[slot].cur else { return };
        let addr = self.incs[i].addr;
        let Some(sv) = self.server.as_ref() else { return };
        if what == 0 {
            if let Some(rc) = sv.client(&addr) {
                self.handles.push((addr, lib("clone", || rc.clone())));
            }
            return;
        }
        self.env.cur.set(0);
        for (a, h) in &self.handles {
            if sv.client(a).map_or(false, |c| Rc::ptr_eq(c, h)) {
                continue;
            }
            self.ctx.stats.bump("probe:stale_handle_used");
            lib("stale_handle", || {
                let mut c = h.borrow_mut();
                match what {
                    1 => c.send(vec![7u8; 30].into_boxed_slice(), 3, uflow::SendMode::Reliable),
                    2 => c.disconnect(),
                    3 => c.disconnect_now(),
                    _ => {
                        let _ = (c.is_active(), c.rtt_s(), c.send_buffer_size());
                    }
                }
            });
        }
    }

    // ---------------------------------------------------------------- attackers

    fn slot_of(&self, a: SocketAddr) -> Option<usize> {
        match a.ip() {
            IpAddr::V4(v) if v.octets()[..3] == [10, 0, 0] => {
                let k = v.octets()[3] as usize;
                (k >= 2 && k - 2 < self.slots.len()).then(|| k - 2)
            }
            _ => None,
        }
    }

    fn hostile(&mut self, side: i64, slot: usize, kind: i64) {
        let Some(i) = self.slots[slot].cur else { return };
        let addr = self.incs[i].addr;
        let view = if side == 0 {
            self.incs[i].tainted = true;
            if let Some(s) = self.incs[i].sess {
                self.sess[s].tainted = true;
            }
            self.incs[i].s.view.clone()
        } else {
            let Some(&k) = self.cur.get(&addr) else { return };
            self.sess[k].tainted = true;
            self.incs[i].tainted = true;
            self.sess[k].s.view.clone()
        };
        let r = &mut self.slots[slot].hostile_rng;
        let k = if kind < 0 { r.below(19) as i64 } else { kind };
        let mut b = hostile::build(k, r, &view);
        // Half of the handshake frames carry the right nonce.
        if (11..=13).contains(&k) && r.one_in(2) {
            let inc = &self.incs[i];
            let sn = self.cur.get(&addr).map_or(0, |k| self.sess[*k].sn);
            b = match k {
                11 => Fr::SynAck { nonce_ack: inc.nonce, nonce: r.u64() as u32, rate: r.u64() as u32, packet: 0, alloc: r.pick(&[0u32, 1, 5000]) }
                    .encode(),
                12 => Fr::HsErr { nonce_ack: inc.nonce, err: r.below(3) as u8 }.encode(),
                _ => Fr::HsAck { nonce_ack: sn }.encode(),
            };
        }
        self.ctx.stats.bump("fault:hostile_frame");
        let (from, to) = if side == 0 { (self.saddr, addr) } else { (addr, self.saddr) };
        self.env.arrive(from, to, b);
    }

    fn raw(&mut self, id: i64, what: i64, arg: i64) {
        let mut r = self.raw_rng.clone();
        let (from, to, nonce_target) = if id >= 200 {
            // to a client, spoofed from the server
            let slot = (id - 200) as usize % self.slots.len();
            let Some(i) = self.slots[slot].cur else { return };
            (self.saddr, self.incs[i].addr, self.incs[i].nonce)
        } else if id >= 100 {
            let slot = (id - 100) as usize % self.slots.len();
            let Some(i) = self.slots[slot].cur else { return };
            let sn = self.cur.get(&self.incs[i].addr).map_or(0, |k| self.sess[*k].sn);
            (self.incs[i].addr, self.saddr, sn)
        } else {
            let a = SocketAddr::new(IpAddr::V4(Ipv4Addr::new(10, 9, (id / 8) as u8, (id % 8) as u8 + 1)), 5000 + (id % 3) as u16);
            let sn = self.cur.get(&a).map_or(0, |k| self.sess[*k].sn);
            (a, self.saddr, sn)
        };
        let okalloc = (self.scfg.max_packet_size.min(u32::MAX as usize) as u32).saturating_add(r.below(1000) as u32);
        let okalloc = r.pick(&[okalloc, okalloc, okalloc.saturating_add(1_000_000), u32::MAX]);
        let okpkt = (self.scfg.max_receive_alloc.min(u32::MAX as usize) as u32).min(1 + r.below(1000) as u32);
        // An attacker repeats its own nonce now and then.
        let n = match self.raw_nonce.get(&from) {
            Some(n) if r.one_in(2) => *n,
            _ => r.u64() as u32,
        };
        let rate = r.pick(&[1u32, 100, 2_000_000, u32::MAX]);
        let syn = |version, packet, alloc| Fr::Syn { version, nonce: n, rate, packet, alloc };
        let b = match what {
            0 => syn(3, okpkt, okalloc).encode(),
            1 => {
                // Undersized, correctly sealed.
                let full = syn(3, okpkt, okalloc).encode();
                let len = if arg > 0 { (arg as usize).clamp(18, MAX_FRAME - 5) } else { r.range(18, MAX_FRAME as i64 - 5) as usize };
                seal(full[..len].to_vec())
            }
            2 => {
                let v = match r.below(3) {
                    0 => r.pick(&[0u8, 1, 2, 4, 5, 255]),
                    1 => 3 ^ (1 << r.below(8)),
                    _ => (4 + r.below(255)) as u8,
                };
                syn(v, okpkt, okalloc).encode()
            }
            3 => syn(3, okpkt, r.below(self.scfg.max_packet_size as u64) as u32).encode(),
            4 => {
                if self.scfg.max_receive_alloc >= u32::MAX as usize {
                    return;
                }
                let lo = self.scfg.max_receive_alloc as i64 + 1;
                syn(3, r.range(lo, lo + 100) as u32, okalloc).encode()
            }
            5 => Fr::HsAck { nonce_ack: nonce_target }.encode(),
            6 => {
                let (x, y) = (r.u64() as u32, near(&mut r, nonce_target));
                let sn = self.cur.get(&from).map(|&k| self.sess[k].sn);
                let guess = r.pick(&[y, y, y, n, 0, x]);
                // What it takes, or will take, is not guessed.
                let next = self.env.nodes.borrow()[0].edge.map(|v| v as u32);
                Fr::HsAck { nonce_ack: if sn == Some(guess) || next == Some(guess) { guess ^ 0x40 } else { guess } }.encode()
            }
            7 => Fr::Disc.encode(),
            8 => Fr::DiscAck.encode(),
            9 => {
                let len = r.pick(&[0u64, 1, 2, 4, 5, 9, 30, 1471, 1472, 1473, 2000]);
                (0..len).map(|_| r.u64() as u8).collect()
            }
            10 => {
                let v = hostile::View { win: 4096, ..Default::default() };
                let k = r.below(11) as i64;
                hostile::build(k, &mut r, &v)
            }
            11 => {
                let mut b = syn(3, okpkt, okalloc).encode();
                b.resize(r.range(1473, 5000) as usize, 0);
                b
            }
            12 => Fr::HsErr { nonce_ack: if r.one_in(2) { nonce_target } else { n }, err: r.below(3) as u8 }.encode(),
            13 => {
                let ack = if arg == 1 || r.one_in(2) { nonce_target } else { n };
                Fr::SynAck { nonce_ack: ack, nonce: r.u64() as u32, rate: 1000, packet: 1000, alloc: 100_000 }.encode()
            }
            14 => syn(r.pick(&[2u8, 4]), u32::MAX, 0).encode(),
            17 => match arg {
                // The smallest frame of one type, over and over.
                0 => Fr::Data { id: r.u64() as u32, nonce: r.one_in(2), dgs: vec![] }.encode(),
                1 => Fr::Sync { frame: None, packet: None }.encode(),
                2 => Fr::Ack { fbase: r.u64() as u32, pbase: r.u64() as u32 & ID_MASK, groups: vec![] }.encode(),
                3 => Fr::Disc.encode(),
                4 => Fr::DiscAck.encode(),
                5 => {
                    let x = r.u64() as u32;
                    Fr::HsAck { nonce_ack: if x == nonce_target { x ^ 0x40 } else { x } }.encode()
                }
                6 => Fr::HsErr { nonce_ack: r.u64() as u32, err: r.below(3) as u8 }.encode(),
                7 => Fr::SynAck { nonce_ack: r.u64() as u32, nonce: n, rate: 9, packet: 9, alloc: 9 }.encode(),
                8 => seal(vec![r.u64() as u8]),
                _ => (0..r.below(3)).map(|_| r.u64() as u8).collect(),
            },
            // wrong nonces only
            15 => Fr::SynAck { nonce_ack: near(&mut r, nonce_target), nonce: r.u64() as u32, rate: 9, packet: 9, alloc: 9 }.encode(),
            _ => Fr::HsErr { nonce_ack: near(&mut r, nonce_target), err: r.below(3) as u8 }.encode(),
        };
        self.raw_rng = r;
        if what == 10 && id >= 100 && self.would_hit(id >= 200, from, to, &b) {
            return;
        }
        if from.port() >= 5000 && id < 100 {
            self.raw_nonce.insert(from, n);
        }
        self.ctx.stats.bump(match what {
            0 => "fault:forged_syn",
            1 => "fault:undersized_syn",
            2 | 3 | 4 | 14 => "fault:mismatched_syn",
            5 => "fault:attacker_handshake_ack",
            6 => "fault:forged_handshake_ack",
            7 | 8 => "fault:forged_disconnect",
            12 | 16 => "fault:forged_handshake_error",
            13 | 15 => "fault:forged_syn_ack",
            17 => "fault:tiny_frame_burst",
            _ => "fault:garbage_datagram",
        });
        if self.ctx.verbose {
            self.ctx.note(|| format!("attacker {from} -> {to}: {}", brief(Fr::decode(&b).as_ref(), b.len())));
        }
        self.env.arrive(from, to, b);
    }

    /// Off-path attackers do not guess sequence numbers right.
    fn would_hit(&self, client: bool, from: SocketAddr, to: SocketAddr, b: &[u8]) -> bool {
        let v = if client {
            self.incs.iter().rfind(|i| i.addr == to).map(|i| &i.s.view)
        } else {
            self.cur.get(&from).map(|&k| &self.sess[k].s.view)
        };
        let (Some(v), Some(fr)) = (v, Fr::decode(b)) else { return false };
        let f = |a: u32, b: u32| a.wrapping_sub(b).wrapping_add(20_000) < 40_000;
        let p = |a: u32, b: u32| a.wrapping_sub(b).wrapping_add(20_000) & ID_MASK < 40_000;
        match fr {
            Fr::Data { id, .. } => f(id, v.rx_frame),
            Fr::Sync { frame, packet } => frame.map_or(false, |x| f(x, v.rx_frame)) || packet.map_or(false, |x| p(x, v.rx_packet_next)),
            Fr::Ack { fbase, pbase, groups } => {
                f(fbase, v.tx_frame_next) || p(pbase, v.tx_packet_next) || groups.iter().any(|g| f(g.base, v.tx_frame_next))
            }
            _ => false,
        }
    }

    // ---------------------------------------------------------------- ticks

    fn client_ms(&self, i: usize) -> u64 {
        (self.env.local_ns(self.slots[self.incs[i].slot].node) - self.incs[i].created_ns) / 1_000_000
    }

    fn server_ms(&self) -> u64 {
        (self.env.local_ns(0) - self.screated_ns) / 1_000_000
    }

    fn tick(&mut self, slot: usize) {
        let s = &mut self.slots[slot];
        let d = s.interval + s.rng.below(s.jitter + 1);
        let p = s.flush_ppm;
        let fl = s.rng.chance(p);
        let stalled = s.stalled_until > self.now;
        self.push(self.now + d, Ev::Tick(slot));
        if stalled {
            return;
        }
        let Some(i) = self.slots[slot].cur else { return };
        if self.incs[i].client.is_none() {
            return;
        }
        self.step_client(i);
        if fl && !self.ctx.failed() {
            self.cflush(slot);
        }
    }

    fn cflush(&mut self, slot: usize) {
        let Some(i) = self.slots[slot].cur else { return };
        self.env.cur.set(self.slots[slot].node);
        let Some(c) = self.incs[i].client.as_mut() else { return };
        lib("flush", || c.flush());
        let ms = self.client_ms(i);
        self.drain(Some(i), ms);
        self.after_client(i);
    }

    fn sflush_call(&mut self) {
        self.env.cur.set(0);
        let Some(s) = self.server.as_mut() else { return };
        lib("flush", || s.flush());
        let ms = self.server_ms();
        self.drain(None, ms);
        self.after_server();
    }

    fn step_client(&mut self, i: usize) {
        let node = self.slots[self.incs[i].slot].node;
        self.env.cur.set(node);
        let ms = self.client_ms(i);
        {
            let inc = &mut self.incs[i];
            inc.s.expect.clear();
            inc.s.ack_due = 0;
            let gap = ms - inc.last_step_ms;
            inc.max_gap_ms = inc.max_gap_ms.max(gap);
            inc.last_step_ms = ms;
        }
        let before = self.incs[i].s.ph;
        let hs0 = self.incs[i].s.hs_ms.len();
        let disc0 = self.incs[i].s.disc_ms.len();
        let now_due = self.incs[i].s.now_due && before == Ph::Active;
        let c = self.incs[i].client.as_mut().unwrap();
        let evs: Vec<client::Event> = lib("client_step", || c.step().collect());
        let rtt = c.rtt_s().unwrap_or(0.0);
        self.incs[i].s.rtt = self.incs[i].s.rtt.max(rtt);
        self.drain(Some(i), ms);
        self.incs[i].s.rtt = rtt;
        self.incs[i].steps += 1;
        let mut term = false;
        for e in evs {
            let e = match e {
                client::Event::Connect => Evt::Connect,
                client::Event::Disconnect => Evt::Disc,
                client::Event::Receive(d) => Evt::Recv(d),
                client::Event::Error(t) => Evt::Err(client_err(&t)),
            };
            term |= matches!(e, Evt::Disc | Evt::Err(_));
            self.client_event(i, e, ms, before, hs0, disc0);
            if self.ctx.failed() {
                return;
            }
        }
        // Owed events and replies.
        let inc = &self.incs[i];
        let (slot, reused) = (inc.slot, inc.reused);
        if let Some(w) = inc.s.expect.first().copied() {
            let props: &[u8] = if w == "Disconnect" { &[9] } else { &[7] };
            for &p in props {
                self.ctx.fail(p, "missing_event", || format!("client of slot {slot}: a frame demanded the event {w}, which this step did not report"));
            }
        }
        if self.incs[i].s.ack_due > 0 {
            self.ctx.fail(9, "no_ack", || format!("client of slot {slot} did not acknowledge a disconnect request"));
        }
        if now_due && !term {
            if self.incs[i].s.disc_ms.len() == disc0 {
                self.ctx.fail(9, "not_now", || format!("client of slot {slot}: no disconnect request sent by the step after disconnect_now()"));
            }
            self.incs[i].s.now_due = false;
        }
        let gap = self.incs[i].max_gap_ms;
        let to = self.incs[i].cfg.active_timeout_ms;
        let fin = self.incs[i].app_fin;
        self.due(ms, before, hs0, disc0, gap, to, fin, reused, Err(i));
        self.after_client(i);
        self.sample();
    }

    fn stick(&mut self) {
        let d = self.sinterval + self.srng.below(self.sjitter + 1);
        let fl = self.srng.chance(self.sflush);
        let e = self.epoch;
        self.push(self.now + d, Ev::STick(e));
        if self.sstalled > self.now || self.server.is_none() {
            return;
        }
        self.step_server();
        if fl && !self.ctx.failed() {
            self.sflush_call();
        }
    }

    fn step_server(&mut self) {
        self.env.cur.set(0);
        let ms = self.server_ms();
        let gap = ms - self.slast_ms;
        self.smax_gap = self.smax_gap.max(gap);
        self.slast_ms = ms;
        let live: Vec<usize> = self.cur.values().copied().filter(|&k| !self.sess[k].gone).collect();
        let mut before = BTreeMap::new();
        for &k in &live {
            let s = &mut self.sess[k].s;
            s.expect.clear();
            s.ack_due = 0;
            before.insert(k, (s.ph, s.hs_ms.len(), s.disc_ms.len(), s.now_due && s.ph == Ph::Active));
        }
        self.expects.clear();
        self.refused.clear();
        self.new_offers = 0;
        let sv = self.server.as_mut().unwrap();
        let evs: Vec<server::Event> = lib("server_step", || sv.step().collect());
        for &k in &live {
            let a = self.sess[k].addr;
            let rtt = self.server.as_ref().unwrap().client(&a).and_then(|c| c.borrow().rtt_s()).unwrap_or(0.0);
            self.sess[k].s.rtt = self.sess[k].s.rtt.max(rtt);
        }
        self.drain(None, ms);
        if self.ctx.failed() {
            return;
        }
        for &k in &live {
            let a = self.sess[k].addr;
            let rtt = self.server.as_ref().unwrap().client(&a).and_then(|c| c.borrow().rtt_s()).unwrap_or(0.0);
            self.sess[k].s.rtt = rtt;
        }
        self.ssteps += 1;
        let mut termed = BTreeSet::new();
        for e in evs {
            let (a, e) = match e {
                server::Event::Connect(a) => (a, Evt::Connect),
                server::Event::Disconnect(a) => (a, Evt::Disc),
                server::Event::Receive(a, d) => (a, Evt::Recv(d)),
                server::Event::Error(a, t) => (a, Evt::Err(server_err(&t))),
            };
            if matches!(e, Evt::Disc | Evt::Err(_)) {
                termed.insert(a);
            }
            self.server_event(a, e, ms, &before);
            if self.ctx.failed() {
                return;
            }
        }
        for k in std::mem::take(&mut self.superseded) {
            let a = self.sess[k].addr;
            if self.sess[k].s.terminal.is_none() {
                self.ctx.fail(9, "missing_event", || format!("server, {a}: the disconnect request was acknowledged, which this step did not report"));
            }
            self.sess[k].gone = true;
        }
        // Answers owed to connection requests.
        for x in std::mem::take(&mut self.expects) {
            if !x.got {
                let (a, n) = (x.addr, x.nonce);
                if x.ended {
                    self.ctx.fail(17, "no_answer", || format!("connection request {n:08x} from {a}, whose previous connection has ended, was neither accepted nor refused"));
                }
                self.ctx.fail(7, "no_answer", || format!("connection request {n:08x} from {a} was neither accepted nor refused"));
            }
        }
        // Per session.
        let all: Vec<usize> = self.cur.values().copied().filter(|&k| !self.sess[k].gone).collect();
        let (mut tracked, mut active, mut entitled) = (0usize, 0usize, 0usize);
        for k in all {
            let addr = self.sess[k].addr;
            let (exists, is_active) = match self.server.as_ref().unwrap().client(&addr) {
                None => (false, false),
                Some(c) => (true, c.borrow().is_active()),
            };
            tracked += exists as usize;
            active += is_active as usize;
            if let Some(w) = self.sess[k].s.expect.first().copied() {
                let p = if w == "Disconnect" { 9 } else { 7 };
                self.ctx.fail(p, "missing_event", || format!("server, {addr}: a frame demanded the event {w}, which this step did not report"));
            }
            if self.sess[k].s.ack_due > 0 {
                self.ctx.fail(9, "no_ack", || format!("server did not acknowledge a disconnect request of {addr}"));
            }
            let (b, hs0, disc0, now_due) = before.get(&k).copied().unwrap_or((Ph::Pending, 1, 0, false));
            if now_due && !termed.contains(&addr) {
                if self.sess[k].s.disc_ms.len() == disc0 {
                    self.ctx.fail(9, "not_now", || format!("server, {addr}: no disconnect request sent by the step after disconnect_now()"));
                }
                self.sess[k].s.now_due = false;
            }
            let reused = self.sess[k].inc.map_or(false, |i| self.incs[i].reused);
            if before.contains_key(&k) {
                // A handshake given up.
                if !exists && b == Ph::Pending && self.sess[k].s.ph == Ph::Pending {
                    let n = self.sess[k].s.hs_ms.len();
                    let last = *self.sess[k].s.hs_ms.last().unwrap_or(&0);
                    if n != TRANSMISSIONS || ms + 1 < last + RESEND_MS {
                        self.ctx.fail(10, "handshake_early", || {
                            format!("server gave up the handshake with {addr} after {n} transmissions, the last {} ms ago", ms - last)
                        });
                    }
                    self.ctx.stats.bump("probe:server_handshake_timeout");
                    self.one_sided(k);
                    self.sess[k].s.ph = Ph::Fin;
                } else {
                    let (g, to) = (self.smax_gap, self.scfg.active_timeout_ms);
                    self.due(ms, b, hs0, disc0, g, to, false, reused, Ok(k));
                }
            }
            if self.ctx.failed() {
                return;
            }
            // A connection which a request of the peer has closed keeps acknowledging repetitions for a
            // while, whether or not the server still admits to knowing it.
            let lingers = self.sess[k].s.ph == Ph::Closed && ms < self.sess[k].s.closed_ms + 19_000;
            if !exists && !lingers {
                self.sess[k].gone = true;
                if self.sess[k].s.ph != Ph::Fin && self.sess[k].s.ph != Ph::Closed && !self.sess[k].tainted {
                    let ph = self.sess[k].s.ph;
                    for p in [8u8, 7] {
                        self.ctx.fail(p, "vanished", || format!("server forgot {addr} while {ph:?} without a terminal event"));
                    }
                }
            } else {
                if is_active {
                    self.ctx.stats.max("max:established_connections", active as u64);
                }
                entitled += self.takes_room(k, ms) as usize;
            }
        }
        let (mt, ma) = (self.max_total, self.max_active);
        if tracked > mt {
            self.ctx.fail(17, "total", || format!("{tracked} connections tracked, max_total_connections is {mt}"));
        }
        if active > ma {
            self.ctx.fail(17, "active", || format!("{active} connections established, max_active_connections is {ma}"));
        }
        if tracked == mt || active == ma {
            self.ctx.stats.bump("probe:at_connection_limit");
        }
        self.prev_tracked = entitled;
        self.prev_ms = ms;
        let (step, sess) = (self.ssteps, &self.sess);
        for (k, left) in self.busy.iter_mut() {
            let s = &sess[*k];
            if left.is_none() && (s.gone || !matches!(s.s.ph, Ph::Pending | Ph::Active)) {
                *left = Some(step);
            }
        }
        self.busy.retain(|b| b.1.map_or(true, |l| l == step));
        self.after_server();
        self.sample();
    }

    /// Whether a session may still count towards the limits after a step at `ms`: not once it has ended, and while it
    /// lingers in order to acknowledge repeated disconnect requests only for the length of the retry budget.
    fn takes_room(&self, k: usize, ms: u64) -> bool {
        match self.sess[k].s.ph {
            Ph::Fin => false,
            Ph::Closed => ms < self.sess[k].s.closed_ms + LINGER_MS,
            _ => true,
        }
    }

    /// Timer-driven obligations of one side at the end of a step.
    #[allow(clippy::too_many_arguments)]
    fn due(&mut self, ms: u64, before: Ph, hs0: usize, disc0: usize, gap: u64, timeout: u64, fin: bool, reused: bool, who: Result<usize, usize>) {
        let (s, name, tainted) = match who {
            Ok(k) => (&self.sess[k].s, format!("server, {}", self.sess[k].addr), self.sess[k].tainted),
            Err(i) => (&self.incs[i].s, format!("client of slot {}", self.incs[i].slot), self.incs[i].tainted),
        };
        let (hs, disc) = (s.hs_ms.clone(), s.disc_ms.clone());
        let (ph, loose) = (s.ph, s.loose_ms);
        let peer_disc = match who {
            Ok(k) => self.sess[k].inc.and_then(|i| self.incs[i].s.disc_us),
            Err(i) => self.incs[i].sess.and_then(|k| self.sess[k].s.disc_us),
        };
        let mut fails: Vec<(u8, &'static str, String)> = vec![];
        if before == Ph::Pending && ph == Ph::Pending && !fin && hs0 > 0 {
            let last = hs[hs0 - 1];
            if hs.len() == hs0 && ms >= last + RESEND_MS + 1 {
                fails.push((10, "handshake_late", format!("{name}: {} ms after transmission {hs0} of the handshake, neither repeated nor given up", ms - last)));
            }
        }
        if hs.len() > hs0 && hs0 > 0 {
            let last = hs[hs0 - 1];
            if hs.len() > TRANSMISSIONS || hs.len() > hs0 + 1 {
                fails.push((10, "handshake_resends", format!("{name}: handshake request transmitted {} times", hs.len())));
            }
            if ms + 1 < last + RESEND_MS {
                fails.push((10, "handshake_resends", format!("{name}: handshake repeated after {} ms", ms - last)));
            }
        }
        if before == Ph::Active && ph == Ph::Active && ms >= loose.saturating_add(timeout).saturating_add(1) {
            fails.push((10, "timeout_late", format!("{name}: no frame for {} ms (timeout {timeout} ms), not reported", ms - loose)));
            if peer_disc.is_some() && !reused {
                fails.push((9, "peer_late", format!("{name}: no frame for {} ms after the peer began to disconnect, not reported", ms - loose)));
            }
        }
        if ph == Ph::Closing && before == Ph::Closing && disc0 > 0 {
            let last = disc[disc0 - 1];
            if disc.len() == disc0 && ms >= last + RESEND_MS + 1 {
                fails.push((10, "disconnect_late", format!("{name}: {} ms after transmission {disc0} of the disconnect request, neither repeated nor given up", ms - last)));
            }
            if ms > disc[0] + BUDGET_MS + 12 * (gap + 1) {
                fails.push((9, "requester_late", format!("{name}: no terminal event {} ms after the disconnect request", ms - disc[0])));
            }
        }
        if disc.len() > disc0 && disc0 > 0 {
            let last = disc[disc0 - 1];
            if disc.len() > TRANSMISSIONS || disc.len() > disc0 + 1 || ms + 1 < last + RESEND_MS {
                fails.push((10, "disconnect_resends", format!("{name}: disconnect request transmission {} after {} ms", disc.len(), ms - last)));
            }
        }
        let _ = tainted;
        for (p, c, m) in fails {
            self.ctx.fail(p, c, || m);
        }
    }

    // ---------------------------------------------------------------- frames

    /// Follow, in order, what the library read and sent during the call just made.
    fn drain(&mut self, inc: Option<usize>, ms: u64) {
        let log = std::mem::take(&mut self.env.udp.borrow_mut().log);
        for io in log {
            match io {
                Io::Sent { from, to, data, failed, .. } => self.on_sent(inc, ms, from, to, data, failed),
                Io::Read { from, data, .. } => {
                    self.ctx.tr_bytes(&data);
                    let fr = Fr::decode(&data);
                    if self.ctx.verbose {
                        let w = match inc {
                            Some(i) => format!("client {}", self.incs[i].slot),
                            None => format!("server (from {from})"),
                        };
                        self.ctx.note(|| format!("{w} reads {}", brief(fr.as_ref(), data.len())));
                    }
                    match inc {
                        Some(i) => self.client_read(i, ms, fr),
                        None => self.server_read(ms, from, data.len(), fr),
                    }
                }
            }
            if self.ctx.failed() {
                return;
            }
        }
    }

    fn on_sent(&mut self, inc: Option<usize>, ms: u64, from: SocketAddr, to: SocketAddr, data: Vec<u8>, failed: bool) {
        self.ctx.tr_bytes(&data);
        let fr = Fr::decode(&data);
        if self.ctx.verbose {
            self.ctx.note(|| format!("{from} -> {to}{}: {}", if failed { " (send error)" } else { "" }, brief(fr.as_ref(), data.len())));
        }
        if data.len() > MAX_FRAME {
            let n = data.len();
            self.ctx.fail(4, "framesize", || format!("{from} sent a datagram of {n} bytes"));
        }
        match inc {
            Some(i) => self.client_sent(i, ms, to, &fr, data.len()),
            None => self.server_sent(ms, to, &fr, data.len()),
        }
        if failed {
            self.ctx.stats.bump("fault:frame_send_error");
            return;
        }
        let link = match inc {
            Some(i) => 2 * self.incs[i].slot as u32,
            None => match self.slot_of(to) {
                Some(k) => 2 * k as u32 + 1,
                None => return,
            },
        };
        // For replaying attackers.
        if let (Some(_), true) = (inc, self.plan.get("hostile", 0) != 0) {
            if let Some(&k) = self.cur.get(&from) {
                let v = &mut self.sess[k].s.view.recent;
                if v.len() >= 16 {
                    v.remove(0);
                }
                v.push(data.clone());
            }
        }
        let out = self.nets[link as usize].transmit(self.ctx, self.plan, link, self.now, &data);
        for (t, b) in out {
            self.push(t, Ev::Arrive(from, to, b));
        }
    }

    fn client_sent(&mut self, i: usize, ms: u64, to: SocketAddr, fr: &Option<Fr>, len: usize) {
        let slot = self.incs[i].slot;
        if to != self.saddr {
            self.ctx.fail(7, "misdirected", || format!("client of slot {slot} sent a frame to {to}"));
            return;
        }
        match fr {
            Some(Fr::Syn { version, nonce, rate, packet, alloc }) => {
                let first = self.incs[i].s.hs_ms.is_empty();
                let (seed, ideal) = (mix2(self.plan.seed, i as u64), self.plan.get("ideal", 0) != 0);
                let inc = &mut self.incs[i];
                if first {
                    inc.nonce = *nonce;
                    inc.s.flow = Flow::new(seed, 0, *nonce);
                    inc.s.flow.ideal = ideal;
                    inc.s.view.tx_frame_base = *nonce;
                    inc.s.view.tx_frame_next = *nonce;
                    inc.s.view.tx_packet_base = *nonce & ID_MASK;
                    inc.s.view.tx_packet_next = *nonce & ID_MASK;
                    inc.s.seq = (*nonce, *nonce, *nonce & ID_MASK);
                }
                let same = inc.nonce == *nonce;
                inc.s.hs_ms.push(ms);
                let m = |v: usize| v.min(u32::MAX as usize) as u32;
                let c = &inc.cfg;
                let good = (*version, *rate, *packet, *alloc)
                    == (uflow::PROTOCOL_VERSION, m(c.max_receive_rate), m(c.max_packet_size), m(c.max_receive_alloc));
                if !same || !good {
                    self.ctx.fail(7, "syn_fields", || {
                        format!("client of slot {slot} sent version {version} nonce {nonce:08x} limits {rate}/{packet}/{alloc}, not those it was configured with")
                    });
                }
                if first && !self.nonces.insert((slot, *nonce)) {
                    self.ctx.fail(7, "nonce", || format!("client of slot {slot} reused the nonce {nonce:08x}"));
                }
            }
            Some(Fr::Disc) => {
                let inc = &mut self.incs[i];
                unasked(self.ctx, &inc.s, &format!("client of slot {slot}"));
                if inc.s.disc_ms.is_empty() {
                    inc.s.disc_us = Some(self.now);
                }
                inc.s.disc_ms.push(ms);
                if inc.s.ph == Ph::Active {
                    inc.s.ph = Ph::Closing;
                }
            }
            Some(Fr::DiscAck) => self.incs[i].s.ack_due = self.incs[i].s.ack_due.saturating_sub(1),
            Some(Fr::HsAck { .. }) => self.incs[i].acks += 1,
            Some(f @ (Fr::Data { .. } | Fr::Sync { .. } | Fr::Ack { .. })) => {
                let ns = self.env.local_ns(self.slots[slot].node);
                let steps = self.incs[i].steps;
                let inc = &mut self.incs[i];
                let sess = inc.sess;
                let peer = sess.filter(|_| !inc.reused).map(|k| &self.sess[k].s.seq);
                emit(self.ctx, &mut inc.s, f, len, ns, steps, self.now, inc.tainted, peer, &format!("client of slot {slot}"));
                if let (Fr::Data { id, dgs, .. }, Some(k)) = (f, sess) {
                    let v = &mut self.sess[k].s.view;
                    v.rx_frame = id.wrapping_add(1);
                    for d in dgs {
                        v.rx_packet_next = d.id.wrapping_add(1) & ID_MASK;
                    }
                }
                if let (Fr::Data { id, nonce, .. }, true) = (f, self.plan.get("hostile", 0) != 0) {
                    push_nonce(&mut self.incs[i].s.view, *id, *nonce);
                }
            }
            _ => {}
        }
    }

    fn client_read(&mut self, i: usize, ms: u64, fr: Option<Fr>) {
        let Some(fr) = fr else { return };
        self.incs[i].s.loose_ms = ms;
        let ph = self.incs[i].s.ph;
        let fin = self.incs[i].app_fin;
        match &fr {
            Fr::SynAck { nonce_ack, nonce, rate, alloc, .. } => {
                if *nonce_ack == self.incs[i].nonce && ph == Ph::Pending && !fin {
                    let addr = self.incs[i].addr;
                    let limit = self.incs[i].cfg.max_send_rate.min(*rate as usize) as u64;
                    let inc = &mut self.incs[i];
                    inc.s.ph = Ph::Active;
                    inc.s.expect.push("Connect");
                    inc.s.strict_ms = ms;
                    inc.sn = Some(*nonce);
                    inc.s.watch = RateWatch::new(limit);
                    inc.s.peer_alloc = *alloc as usize;
                    inc.s.view.rx_frame = *nonce;
                    inc.s.view.rx_packet = *nonce & ID_MASK;
                    inc.s.view.rx_packet_next = *nonce & ID_MASK;
                    let cn = inc.nonce;
                    let k = self.sess.iter().rposition(|s| s.addr == addr && s.sn == *nonce && s.cn == cn);
                    self.incs[i].sess = k;
                    match k {
                        Some(k) => self.sess[k].inc = Some(i),
                        // A forged SYN-ACK which echoes our nonce.
                        None => self.incs[i].tainted = true,
                    }
                } else if ph == Ph::Active && self.incs[i].sn == Some(*nonce) && *nonce_ack == self.incs[i].nonce {
                    if ms > self.incs[i].s.strict_ms {
                        self.incs[i].repeats += 1;
                    }
                    self.incs[i].s.strict_ms = ms;
                }
            }
            Fr::HsErr { nonce_ack, err } => {
                if *nonce_ack == self.incs[i].nonce && ph == Ph::Pending && !fin {
                    self.incs[i].s.ph = Ph::Fin;
                    self.incs[i].s.expect.push(["Version", "Config", "ServerFull"][*err as usize % 3]);
                }
            }
            Fr::Disc => match ph {
                Ph::Active | Ph::Closing => {
                    let s = &mut self.incs[i].s;
                    s.ph = Ph::Closed;
                    s.closed_ms = ms;
                    s.ack_due += 1;
                    s.expect.push("Disconnect");
                }
                Ph::Closed => {
                    if ms < self.incs[i].s.closed_ms + 19_000 {
                        self.incs[i].s.ack_due += 1;
                        self.ctx.stats.bump("probe:disconnect_repeated_to_closed");
                    }
                }
                _ => {}
            },
            Fr::DiscAck => {
                if ph == Ph::Closing {
                    let s = &mut self.incs[i].s;
                    s.ph = Ph::Fin;
                    s.expect.push("Disconnect");
                }
            }
            Fr::Data { id, .. } => {
                if ph == Ph::Active {
                    self.incs[i].s.strict_ms = ms;
                    self.frags += 1;
                    let v = &mut self.incs[i].s.view;
                    if id.wrapping_sub(v.rx_frame) < v.win {
                        v.rx_frame = id.wrapping_add(1);
                    }
                }
            }
            Fr::Sync { .. } => {
                if ph == Ph::Active {
                    self.incs[i].s.strict_ms = ms;
                }
            }
            Fr::Ack { fbase, pbase, .. } => {
                if ph == Ph::Active {
                    let s = &mut self.incs[i].s;
                    s.strict_ms = ms;
                    s.flow.on_ack_base(*pbase);
                    s.view.tx_frame_base = *fbase;
                    s.view.tx_packet_base = *pbase & ID_MASK;
                }
            }
            _ => {}
        }
    }

    fn server_sent(&mut self, ms: u64, to: SocketAddr, fr: &Option<Fr>, len: usize) {
        let acc = self.acct.entry(to).or_default();
        acc.tx += len as u64;
        if !acc.verified && acc.tx >= acc.rx {
            let (tx, rx) = (acc.tx, acc.rx);
            self.ctx.fail(18, "amplification", || format!("{tx} bytes sent to {to}, which has sent {rx} bytes and not completed a handshake"));
        }
        if !acc.verified {
            self.ctx.stats.bump("probe:reply_to_unverified");
        }
        match fr {
            Some(Fr::SynAck { nonce_ack, nonce, rate, packet, alloc }) => {
                let mut cur = self.cur.get(&to).copied().filter(|&k| !self.sess[k].gone);
                if let Some(k) = cur.filter(|&k| self.sess[k].s.ph == Ph::Fin) {
                    self.superseded.push(k);
                    cur = None;
                }
                if let Some(k) = cur {
                    if self.sess[k].sn == *nonce && self.sess[k].cn == *nonce_ack {
                        self.sess[k].s.hs_ms.push(ms);
                        return;
                    }
                    self.ctx.fail(7, "replaced", || format!("server made a second offer to {to} while the first connection exists"));
                    return;
                }
                let Some(x) = self.expects.iter_mut().find(|x| x.addr == to && x.nonce == *nonce_ack && !x.got) else {
                    for p in [7u8, 18] {
                        self.ctx.fail(p, "unsolicited", || format!("server made an offer to {to} without a valid connection request"));
                    }
                    return;
                };
                x.got = true;
                if x.version_bad || x.config_bad {
                    self.ctx.fail(7, "accepted_mismatch", || format!("server accepted a mismatched connection request of {to}"));
                }
                let (xr, xa) = (x.rate, x.alloc);
                let m = |v: usize| v.min(u32::MAX as usize) as u32;
                let c = &self.scfg;
                if (*rate, *packet, *alloc) != (m(c.max_receive_rate), m(c.max_packet_size), m(c.max_receive_alloc)) {
                    self.ctx.fail(7, "synack_fields", || format!("server announced limits {rate}/{packet}/{alloc}, not those it was configured with"));
                }
                if !self.nonces.insert((usize::MAX, *nonce)) {
                    self.ctx.fail(7, "nonce", || format!("server offered {to} the nonce {nonce:08x}, which is not fresh"));
                }
                self.new_offers += 1;
                self.offers += 1;
                let k = self.sess.len();
                let mut s = Side::new(mix2(self.plan.seed, 0x5E55_0000 + k as u64), 1, *nonce, *nonce_ack);
                s.flow.ideal = self.plan.get("ideal", 0) != 0;
                s.hs_ms.push(ms);
                s.peer_alloc = xa as usize;
                s.watch = RateWatch::new(self.scfg.max_send_rate.min(xr as usize) as u64);
                let inc = self.incs.iter().rposition(|i| i.addr == to && i.nonce == *nonce_ack);
                self.sess.push(Sess {
                    addr: to,
                    cn: *nonce_ack,
                    sn: *nonce,
                    s,
                    inc,
                    tainted: false,
                    epoch: self.epoch,
                    dropped: false,
                    gone: false,
                    rate: xr,
                    cause_forged: false,
                });
                self.cur.insert(to, k);
                self.busy.push((k, None));
            }
            Some(Fr::HsErr { nonce_ack, err }) => {
                let Some(x) = self.expects.iter_mut().find(|x| x.addr == to && x.nonce == *nonce_ack && !x.got) else {
                    self.ctx.stats.bump("info:unexpected_handshake_error");
                    return;
                };
                x.got = true;
                let (vb, cb) = (x.version_bad, x.config_bad);
                self.refused.push((to, *err + 1));
                let full_ok = self.prev_tracked + self.new_offers >= self.max_total || self.busy.len() >= self.max_active;
                match err {
                    0 if !vb => self.ctx.fail(7, "refusal", || format!("server refused a request of {to} with Version although the version matches")),
                    1 if !cb => self.ctx.fail(7, "refusal", || format!("server refused a request of {to} with Config although the configuration is compatible")),
                    2 if !full_ok => {
                        let (a, c, b, d) = (self.prev_tracked + self.new_offers, self.max_total, self.busy.len(), self.max_active);
                        self.ctx.fail(17, "refused", || {
                            format!("server refused {to} with ServerFull while tracking {a} of {c} connections, {b} of {d} active or connecting")
                        });
                    }
                    _ => {}
                }
                self.ctx.stats.bump(match err {
                    0 => "probe:refused_version",
                    1 => "probe:refused_config",
                    _ => "probe:refused_full",
                });
            }
            Some(Fr::Disc) => {
                if let Some(&k) = self.cur.get(&to) {
                    let now = self.now;
                    let s = &mut self.sess[k].s;
                    unasked(self.ctx, s, &format!("server, {to}"));
                    if s.disc_ms.is_empty() {
                        s.disc_us = Some(now);
                    }
                    s.disc_ms.push(ms);
                    if s.ph == Ph::Active {
                        s.ph = Ph::Closing;
                    }
                }
            }
            Some(Fr::DiscAck) => {
                if let Some(&k) = self.cur.get(&to) {
                    let s = &mut self.sess[k].s;
                    s.ack_due = s.ack_due.saturating_sub(1);
                }
            }
            Some(f @ (Fr::Data { .. } | Fr::Sync { .. } | Fr::Ack { .. })) => {
                let Some(&k) = self.cur.get(&to) else {
                    self.ctx.fail(7, "stray", || format!("server sent connection frames to {to}, which has no connection"));
                    return;
                };
                let ns = self.env.local_ns(0);
                let steps = self.ssteps;
                let se = &mut self.sess[k];
                let peer = se.inc.map(|i| &self.incs[i]).filter(|i| !i.reused).map(|i| &i.s.seq);
                emit(self.ctx, &mut se.s, f, len, ns, steps, self.now, se.tainted, peer, &format!("server, {to}"));
                let inc = se.inc;
                if let (Fr::Data { id, dgs, .. }, Some(i)) = (f, inc) {
                    let v = &mut self.incs[i].s.view;
                    v.rx_frame = id.wrapping_add(1);
                    for d in dgs {
                        v.rx_packet_next = d.id.wrapping_add(1) & ID_MASK;
                    }
                }
                if let (Fr::Data { id, nonce, .. }, true) = (f, self.plan.get("hostile", 0) != 0) {
                    push_nonce(&mut self.sess[k].s.view, *id, *nonce);
                }
            }
            _ => {}
        }
    }

    fn server_read(&mut self, ms: u64, from: SocketAddr, len: usize, fr: Option<Fr>) {
        let acc = self.acct.entry(from).or_default();
        acc.rx += len as u64;
        let Some(fr) = fr else { return };
        let cur = self.cur.get(&from).copied().filter(|&k| !self.sess[k].gone);
        if let Some(k) = cur {
            self.sess[k].s.loose_ms = ms;
        }
        let ph = cur.map(|k| self.sess[k].s.ph);
        match &fr {
            Fr::Syn { version, nonce, rate, packet, alloc } => {
                // A session which ended by DiscAck or timeout within this very step no longer counts.
                let tracked = cur.map_or(false, |k| self.sess[k].s.ph != Ph::Fin && self.takes_room(k, self.prev_ms));
                let ended = !tracked && cur.is_some();
                let promised = self.expects.iter().any(|x| x.addr == from && !x.version_bad && !x.config_bad && !x.got);
                if !tracked && !promised {
                    self.expects.push(Expect {
                        addr: from,
                        nonce: *nonce,
                        version_bad: *version != uflow::PROTOCOL_VERSION,
                        config_bad: (*alloc as usize) < self.scfg.max_packet_size || *packet as usize > self.scfg.max_receive_alloc,
                        got: false,
                        ended,
                        rate: *rate,
                        alloc: *alloc,
                    });
                }
                if tracked {
                    self.ctx.stats.bump("probe:syn_for_known_address");
                }
            }
            Fr::HsAck { nonce_ack } => {
                if let Some(k) = cur {
                    if ph == Some(Ph::Pending) && self.sess[k].sn == *nonce_ack {
                        self.acct.get_mut(&from).unwrap().verified = true;
                        let s = &mut self.sess[k].s;
                        s.ph = Ph::Active;
                        s.strict_ms = ms;
                        s.expect.push("Connect");
                    } else {
                        self.ctx.stats.bump("probe:handshake_ack_ignored");
                    }
                }
            }
            Fr::Disc => {
                let Some(k) = cur else { return };
                match ph {
                    Some(Ph::Active | Ph::Closing) => {
                        // Who sent it?
                        let honest = self.sess[k].inc.map_or(false, |i| self.incs[i].s.disc_us.is_some() && !self.incs[i].reused);
                        let se = &mut self.sess[k];
                        se.cause_forged = !honest;
                        se.s.ph = Ph::Closed;
                        se.s.closed_ms = ms;
                        se.s.ack_due += 1;
                        se.s.expect.push("Disconnect");
                    }
                    Some(Ph::Closed) => {
                        if ms < self.sess[k].s.closed_ms + 19_000 {
                            self.sess[k].s.ack_due += 1;
                            self.ctx.stats.bump("probe:disconnect_repeated_to_closed");
                        }
                    }
                    _ => {}
                }
            }
            Fr::DiscAck => {
                if let (Some(k), Some(Ph::Closing)) = (cur, ph) {
                    let s = &mut self.sess[k].s;
                    s.ph = Ph::Fin;
                    s.expect.push("Disconnect");
                }
            }
            Fr::Data { id, .. } => {
                if let (Some(k), Some(Ph::Active)) = (cur, ph) {
                    self.sess[k].s.strict_ms = ms;
                    self.frags += 1;
                    let v = &mut self.sess[k].s.view;
                    if id.wrapping_sub(v.rx_frame) < v.win {
                        v.rx_frame = id.wrapping_add(1);
                    }
                }
            }
            Fr::Sync { .. } => {
                if let (Some(k), Some(Ph::Active)) = (cur, ph) {
                    self.sess[k].s.strict_ms = ms;
                }
            }
            Fr::Ack { fbase, pbase, .. } => {
                if let (Some(k), Some(Ph::Active)) = (cur, ph) {
                    let s = &mut self.sess[k].s;
                    s.strict_ms = ms;
                    s.flow.on_ack_base(*pbase);
                    s.view.tx_frame_base = *fbase;
                    s.view.tx_packet_base = *pbase & ID_MASK;
                }
            }
            _ => {}
        }
    }

    // ---------------------------------------------------------------- events

    fn client_event(&mut self, i: usize, e: Evt, ms: u64, before: Ph, hs0: usize, disc0: usize) {
        let slot = self.incs[i].slot;
        self.ctx.tr(mix2(i as u64, match &e {
            Evt::Connect => 1,
            Evt::Recv(d) => 100 + d.len() as u64,
            Evt::Disc => 2,
            Evt::Err(x) => 10 + *x as u64,
        }));
        if self.ctx.verbose {
            self.ctx.note(|| match &e {
                Evt::Recv(d) => format!("client {slot}: Receive ({} bytes)", d.len()),
                x => format!("client {slot}: {x:?}"),
            });
        }
        // C08
        if let Some((t, at)) = self.incs[i].s.terminal {
            self.ctx.fail(8, "after_end", || format!("client of slot {slot}: {} after its terminal event {t} at {at} ms", evt_name(&e)));
            return;
        }
        let connected = self.incs[i].s.connects > 0;
        match e {
            Evt::Connect => {
                if connected {
                    for p in [7u8, 8] {
                        self.ctx.fail(p, "connect_twice", || format!("client of slot {slot} reported Connect twice"));
                    }
                }
                if self.incs[i].sn.is_none() {
                    self.ctx.fail(7, "connect_unfounded", || {
                        format!("client of slot {slot} reported Connect without a SYN-ACK echoing its nonce")
                    });
                }
                self.connects += 1;
                self.incs[i].s.connects += 1;
                self.owed(Err(i), "Connect");
            }
            Evt::Recv(d) => {
                if !connected {
                    self.ctx.fail(8, "before_connect", || format!("client of slot {slot}: Receive before Connect"));
                }
                let inc = &self.incs[i];
                if let Some(k) = inc.sess {
                    if !inc.tainted && !self.sess[k].tainted {
                        self.sess[k].s.flow.deliver(self.ctx, &d);
                    }
                }
            }
            Evt::Disc => {
                if !connected {
                    self.ctx.fail(8, "before_connect", || format!("client of slot {slot}: Disconnect before Connect"));
                }
                if !self.owed(Err(i), "Disconnect") {
                    for p in [7u8, 9] {
                        self.ctx.fail(p, "unfounded_disconnect", || format!("client of slot {slot}: Disconnect without a disconnect request or acknowledgement from the server"));
                    }
                }
                self.incs[i].s.terminal = Some((9, ms));
                self.check_flushed(Err(i));
            }
            Evt::Err(x) => {
                let ph = self.incs[i].s.ph;
                if x == 0 {
                    self.timeout(Err(i), ms, before, hs0, disc0);
                } else {
                    if connected {
                        for p in [7u8, 8] {
                            self.ctx.fail(p, "reset", || format!("client of slot {slot}: {} after Connect", err_name(x)));
                        }
                    }
                    if !self.owed(Err(i), err_name(x)) {
                        self.ctx.fail(7, "wrong_error", || format!("client of slot {slot}: Error({}) was not what the server answered ({ph:?})", err_name(x)));
                    }
                }
                self.incs[i].s.terminal = Some((x, ms));
                self.incs[i].s.ph = Ph::Fin;
            }
        }
    }

    fn server_event(&mut self, a: SocketAddr, e: Evt, ms: u64, before: &BTreeMap<usize, (Ph, usize, usize, bool)>) {
        self.ctx.tr(mix2(a.port() as u64, match &e {
            Evt::Connect => 1,
            Evt::Recv(d) => 100 + d.len() as u64,
            Evt::Disc => 2,
            Evt::Err(x) => 10 + *x as u64,
        }));
        if self.ctx.verbose {
            self.ctx.note(|| match &e {
                Evt::Recv(d) => format!("server: Receive({a}, {} bytes)", d.len()),
                x => format!("server: {x:?} {a}"),
            });
        }
        let old = self.superseded.iter().copied().find(|&k| self.sess[k].addr == a && self.sess[k].s.terminal.is_none());
        let k = old.or(self.cur.get(&a).copied());
        let open = self.app_conn.contains(&a);
        match e {
            Evt::Connect => {
                if open {
                    for p in [7u8, 8] {
                        self.ctx.fail(p, "connect_twice", || format!("server reported Connect for {a}, which is already connected"));
                    }
                    return;
                }
                let ok = k.map_or(false, |_| self.owed(Ok(k.unwrap()), "Connect"));
                if !ok {
                    self.ctx.fail(7, "connect_unfounded", || format!("server reported Connect for {a}, which did not return the nonce offered to it"));
                }
                if let Some(k) = k {
                    self.sess[k].s.connects += 1;
                    self.connects += 1;
                    // Both ends agree.
                    if let Some(i) = self.sess[k].inc {
                        let (sn, inc) = (self.sess[k].sn, &self.incs[i]);
                        if inc.sn != Some(sn) && !inc.tainted && !self.sess[k].tainted && self.plan.get("spoof", 0) == 0 {
                            let theirs = inc.sn;
                            self.ctx.fail(7, "disagree", || {
                                format!("server connection with {a} uses nonce {sn:08x}, the client's {theirs:08x?}")
                            });
                        }
                    }
                }
                self.app_conn.insert(a);
            }
            Evt::Recv(d) => {
                if !open {
                    self.ctx.fail(8, "before_connect", || format!("server: Receive from {a}, which is not connected"));
                }
                if let Some(k) = k {
                    if let Some(i) = self.sess[k].inc {
                        if !self.sess[k].tainted && !self.incs[i].tainted && self.incs[i].sn == Some(self.sess[k].sn) {
                            self.incs[i].s.flow.deliver(self.ctx, &d);
                        }
                    }
                }
            }
            Evt::Disc => {
                if !open {
                    self.ctx.fail(8, "before_connect", || format!("server: Disconnect of {a}, which is not connected"));
                }
                if let Some(k) = k {
                    if !self.owed(Ok(k), "Disconnect") {
                        for p in [7u8, 9] {
                            self.ctx.fail(p, "unfounded_disconnect", || format!("server: Disconnect of {a} without a disconnect request or acknowledgement from it"));
                        }
                    }
                    self.sess[k].s.terminal = Some((9, ms));
                    self.check_flushed(Ok(k));
                }
                self.app_conn.remove(&a);
            }
            Evt::Err(x) => {
                if open {
                    if x == 0 {
                        if let Some(k) = k {
                            let (b, h, d, _) = before.get(&k).copied().unwrap_or((Ph::Pending, 1, 0, false));
                            self.timeout(Ok(k), ms, b, h, d);
                            self.sess[k].s.terminal = Some((0, ms));
                            self.sess[k].s.ph = Ph::Fin;
                        }
                    } else {
                        for p in [7u8, 8] {
                            self.ctx.fail(p, "reset", || format!("server: {} for {a}, which is connected", err_name(x)));
                        }
                    }
                    self.app_conn.remove(&a);
                } else {
                    let legit = if x != 0 {
                        let p = self.refused.iter().position(|r| *r == (a, x));
                        if let Some(p) = p {
                            self.refused.remove(p);
                        }
                        p.is_some()
                    } else {
                        // A handshake given up.
                        k.map_or(false, |k| {
                            let s = &mut self.sess[k].s;
                            let ok = s.ph == Ph::Pending && s.terminal.is_none();
                            s.terminal = Some((0, ms));
                            ok
                        })
                    };
                    if !legit {
                        self.ctx.fail(8, "after_end", || format!("server: Error({}) for {a}, which has no connection and was not refused so", err_name(x)));
                        self.ctx.fail(7, "wrong_error", || format!("server: Error({}) for {a}, which was not refused so", err_name(x)));
                    }
                    self.ctx.stats.bump("probe:handshake_error_event");
                }
            }
        }
    }

    /// An event the frames just read called for.
    fn owed(&mut self, who: Result<usize, usize>, name: &'static str) -> bool {
        let s = match who {
            Ok(k) => &mut self.sess[k].s,
            Err(i) => &mut self.incs[i].s,
        };
        match s.expect.iter().position(|x| *x == name) {
            Some(p) => {
                s.expect.remove(p);
                true
            }
            None => false,
        }
    }

    /// The server gave up a handshake.
    fn one_sided(&mut self, k: usize) {
        let se = &self.sess[k];
        let Some(inc) = se.inc.map(|i| &self.incs[i]) else { return };
        let fair = !inc.tainted && !se.tainted && !inc.reused && !inc.app_fin && inc.sn == Some(se.sn);
        let (a, r, addr) = (inc.acks, inc.repeats, inc.addr);
        if fair && inc.s.ph == Ph::Active && inc.client.is_some() && r > 0 {
            self.ctx.stats.bump("probe:one_sided_handshake");
            if a < 2 {
                self.ctx.fail(7, "one_sided", || {
                    format!("server gave up the handshake with {addr} although that is connected: it read {r} further SYN-ACKs and replied {a} times in all")
                });
            }
        }
    }

    fn timeout(&mut self, who: Result<usize, usize>, ms: u64, before: Ph, hs0: usize, disc0: usize) {
        let (s, name, tainted, to, loss_free) = match who {
            Ok(k) => {
                let ka = self.scfg.keepalive;
                (&self.sess[k].s, format!("server, {}", self.sess[k].addr), self.sess[k].tainted, self.scfg.active_timeout_ms, ka)
            }
            Err(i) => {
                let ka = self.incs[i].cfg.keepalive;
                (&self.incs[i].s, format!("client of slot {}", self.incs[i].slot), self.incs[i].tainted, self.incs[i].cfg.active_timeout_ms, ka)
            }
        };
        let (strict, hs, disc, ph) = (s.strict_ms, s.hs_ms.clone(), s.disc_ms.clone(), s.ph);
        let _ = (hs0, disc0);
        match ph {
            Ph::Pending => {
                let last = hs.last().copied().unwrap_or(0);
                if hs.len() != TRANSMISSIONS || ms + 1 < last + RESEND_MS {
                    self.ctx.fail(10, "handshake_early", || {
                        format!("{name}: handshake timed out after {} transmissions, the last {} ms ago", hs.len(), ms - last)
                    });
                }
                self.ctx.stats.bump("probe:handshake_timeout");
                if let Ok(k) = who {
                    self.one_sided(k);
                }
            }
            Ph::Active => {
                if ms + 1 < strict.saturating_add(to) && !tainted {
                    self.ctx.fail(10, "timeout_early", || {
                        format!("{name}: timed out {} ms after the latest frame from its peer (timeout {to} ms)", ms - strict)
                    });
                    self.ctx.fail(7, "reset", || format!("{name}: timed out {} ms after the latest frame from its peer", ms - strict));
                }
                self.ctx.stats.bump("probe:active_timeout");
                if self.plan.get("idle", 0) != 0 && loss_free {
                    let known = self.plan.p.get("known").is_some();
                    let class = if known { "known:keepalive-floor" } else { "idle_timeout" };
                    self.ctx.fail(10, class, || format!("{name}: timed out on an idle, loss-free connection with keepalive (timeout {to} ms)"));
                }
            }
            Ph::Closing => {
                let last = disc.last().copied().unwrap_or(0);
                if disc.len() != TRANSMISSIONS || ms + 1 < last + RESEND_MS {
                    for p in [10u8, 9] {
                        self.ctx.fail(p, "disconnect_early", || {
                            format!("{name}: disconnect timed out after {} transmissions, the last {} ms ago", disc.len(), ms - last)
                        });
                    }
                }
                self.ctx.stats.bump("probe:disconnect_timeout");
            }
            Ph::Closed | Ph::Fin => {
                let _ = before;
                self.ctx.fail(10, "timeout_unfounded", || format!("{name}: timeout reported although the connection had ended ({ph:?})"));
            }
        }
    }

    /// C09: at the Disconnect event of one side, everything the other side had flushed must have been delivered.
    fn check_flushed(&mut self, who: Result<usize, usize>) {
        let (i, k) = match who {
            Ok(k) => match self.sess[k].inc {
                Some(i) => (i, k),
                None => return,
            },
            Err(i) => match self.incs[i].sess {
                Some(k) => (i, k),
                None => return,
            },
        };
        let (inc, se) = (&self.incs[i], &self.sess[k]);
        if inc.tainted || se.tainted || inc.sn != Some(se.sn) || inc.reused || se.dropped {
            return;
        }
        let (me, peer, name) = match who {
            Ok(_) => (&se.s, &inc.s, format!("server, {}", se.addr)),
            Err(_) => (&inc.s, &se.s, format!("client of slot {}", inc.slot)),
        };
        if me.disc_call.is_some() {
            return;
        }
        if let (Some((true, n)), Some(_)) = (peer.disc_call, peer.disc_us) {
            let miss = peer.flow.subs[..n].iter().position(|s| s.mode == RE && !s.delivered);
            self.ctx.stats.bump("probe:flushed_disconnect_checked");
            if let Some(m) = miss {
                self.ctx.fail(9, "lost_reliable", || {
                    format!("{name}: Disconnect although Reliable packet {m} (of {n} submitted before disconnect()) was not delivered")
                });
            }
        }
    }

    // ---------------------------------------------------------------- after every call

    fn after_client(&mut self, i: usize) {
        if self.ctx.is(20) {
            let inc = &self.incs[i];
            if let (Some(c), false) = (inc.client.as_ref(), inc.tainted) {
                if matches!(inc.s.ph, Ph::Pending | Ph::Active) && !inc.app_fin && inc.s.flow.map_ok {
                    let (v, (lo, hi)) = (c.send_buffer_size() as u64, inc.s.flow.size_bounds(inc.steps));
                    if v < lo || v > hi {
                        let slot = inc.slot;
                        self.ctx.fail(20, "size", || format!("client of slot {slot}: send_buffer_size() is {v}, but {lo}..={hi} bytes are unacknowledged"));
                    }
                }
            }
        }
        self.heap();
    }

    fn after_server_one(&mut self, k: usize) {
        if self.ctx.is(20) {
            let se = &self.sess[k];
            if se.s.ph == Ph::Active && !se.tainted && !se.gone && se.s.flow.map_ok {
                let a = se.addr;
                let Some(c) = self.server.as_ref().and_then(|s| s.client(&a)) else { return };
                let (v, (lo, hi)) = (c.borrow().send_buffer_size() as u64, se.s.flow.size_bounds(self.ssteps));
                if v < lo || v > hi {
                    self.ctx.fail(20, "size", || format!("server, {a}: send_buffer_size() is {v}, but {lo}..={hi} bytes are unacknowledged"));
                }
            }
        }
        self.heap();
    }

    fn after_server(&mut self) {
        if self.ctx.is(20) {
            let ks: Vec<usize> = self.cur.values().copied().collect();
            for k in ks {
                self.after_server_one(k);
            }
        }
        self.heap();
    }

    fn heap(&mut self) {
        if self.ctx.is(19) {
            if let Some(f) = alloc::take_fault() {
                self.ctx.fail(19, "heap", || format!("allocator contract broken: {f:?}"));
            }
        }
    }

    fn sample(&mut self) {
        let mut h = 0u64;
        for s in &self.slots {
            let (mut a, mut b) = (7u64, 7u64);
            if let Some(i) = s.cur {
                let inc = &self.incs[i];
                a = inc.s.ph as u64 * 8 + inc.s.disc_call.map_or(0, |d| 1 + d.0 as u64) + 64 * inc.s.hs_ms.len() as u64 + 1024 * inc.s.disc_ms.len() as u64
                    + ((inc.s.flow.rel_left > 0) as u64) << 20;
                if let Some(k) = self.cur.get(&inc.addr) {
                    let se = &self.sess[*k];
                    b = se.s.ph as u64 * 8 + se.s.disc_call.map_or(0, |d| 1 + d.0 as u64) + 64 * se.s.hs_ms.len() as u64 + 1024 * se.s.disc_ms.len() as u64
                        + ((se.s.flow.rel_left > 0) as u64) << 20 | (se.gone as u64) << 21;
                }
            }
            h = mix2(h, a << 32 ^ b);
        }
        self.ctx.stats.state(h);
    }
}

fn evt_name(e: &Evt) -> String {
    match e {
        Evt::Recv(d) => format!("Receive ({} bytes)", d.len()),
        x => format!("{x:?}"),
    }
}

fn push_nonce(v: &mut hostile::View, id: u32, nonce: bool) {
    v.nonces.push((id, nonce));
    if v.nonces.len() > 80 {
        v.nonces.drain(..40);
    }
}

/// Connections end because an application asked for it, or by a timeout.
fn unasked(ctx: &mut Ctx, s: &Side, name: &str) {
    if s.disc_call.is_none() {
        for p in [2u8, 9, 11] {
            ctx.fail(p, "unasked_disconnect", || format!("{name}: disconnect request sent although the application called neither disconnect() nor disconnect_now()"));
        }
    }
}

/// Checks on a data, sync or acknowledgement frame leaving one side.
#[allow(clippy::too_many_arguments)]
fn emit(ctx: &mut Ctx, s: &mut Side, fr: &Fr, len: usize, ns: u64, steps: u64, now: u64, tainted: bool, peer: Option<&(u32, u32, u32)>, name: &str) {
    if s.ph != Ph::Active && s.ph != Ph::Closing && !tainted {
        // (A frame flushed in the step in which the connection ends precedes the read that ended it.)
        let ph = s.ph;
        for p in [7u8, 9] {
            ctx.fail(p, "stray", || format!("{name}: connection frame sent while {ph:?}"));
        }
    }
    if ctx.is(13) || ctx.is(7) {
        if let Some(m) = s.watch.push(ns, len, s.rtt) {
            ctx.fail(13, "rate", || format!("{name}: {m}"));
            ctx.fail(7, "limits", || format!("{name}: {m}"));
        }
    }
    match fr {
        Fr::Data { id, dgs, .. } => {
            ctx.stats.bump("data_frames");
            for dg in dgs {
                let (m, a) = s.flow.on_datagram(ctx, dg);
                s.view.tx_packet_next = dg.id.wrapping_add(1) & ID_MASK;
                if tainted || !s.flow.map_ok {
                    continue;
                }
                match m {
                    Mapped::No => ctx.fail(12, "after_window", || format!("{name}: packet id +{a} transmitted after the peer moved past it")),
                    Mapped::New | Mapped::Known => {
                        let p = s.flow.pkts.get_mut(&a).unwrap();
                        let sub = &s.flow.subs[p.sub];
                        let (n, mode, st) = (p.sub, sub.mode, sub.step);
                        let k = dg.frag as usize;
                        if k < p.tx.len() {
                            p.tx[k] += 1;
                            p.last_tx_t[k] = now;
                            if p.tx[k] > 1 && (mode == TS || mode == UN) {
                                ctx.fail(12, "resent", || format!("{name}: fragment {k} of packet {n} (mode {mode}) transmitted twice"));
                            }
                        }
                        if matches!(m, Mapped::New) && mode == TS && st != steps {
                            ctx.fail(12, "stale_ts", || {
                                format!("{name}: TimeSensitive packet {n} submitted after step {st} first transmitted after step {steps}")
                            });
                        }
                    }
                }
            }
            s.view.tx_frame_next = id.wrapping_add(1);
            s.seq.1 = id.wrapping_add(1);
            for dg in dgs {
                let n = dg.id.wrapping_add(1) & ID_MASK;
                if n.wrapping_sub(s.seq.2) & ID_MASK < 0x8_0000 {
                    s.seq.2 = n;
                }
            }
            if (ctx.is(6) || ctx.is(7)) && !tainted && s.flow.map_ok {
                let out = s.flow.next_abs - s.flow.base_abs;
                let lim = s.peer_alloc.saturating_add(FRAG - 1) / FRAG * FRAG;
                let oa = s.flow.outstanding_alloc;
                if out > 4096 {
                    ctx.fail(6, "window", || format!("{name}: {out} packets outstanding"));
                }
                if oa > lim {
                    ctx.fail(7, "limits", || format!("{name}: {oa} fragment-rounded bytes outstanding; the peer advertised {lim}"));
                    ctx.fail(6, "sender_alloc", || format!("{name}: {oa} fragment-rounded bytes outstanding; the peer advertised {lim}"));
                }
            }
        }
        Fr::Sync { frame, packet } => {
            ctx.stats.bump("sync_frames");
            if let Some(f) = frame {
                s.seq.1 = *f;
            }
            if let Some(p) = packet {
                s.seq.2 = *p;
            }
        }
        Fr::Ack { fbase, pbase, .. } => {
            ctx.stats.bump("ack_frames");
            s.view.rx_packet = *pbase;
            if let (Some(&(first, f, p)), false) = (peer, tainted) {
                // Both ends count from the same numbers: what is acknowledged has been sent.
                let fok = fbase.wrapping_sub(first) <= f.wrapping_sub(first);
                let pok = p.wrapping_sub(*pbase) & ID_MASK < 0x8_0000;
                if !fok || !pok {
                    ctx.fail(7, "disagree", || {
                        format!("{name}: acknowledges up to frame {fbase:08x}, packet {pbase:05x}; its peer began at {first:08x} and is at {f:08x}, {p:05x}")
                    });
                }
            }
        }
        _ => {}
    }
}

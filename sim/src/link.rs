//! Two real `HalfConnection`s joined by a simulated bidirectional link.

use crate::alloc::{self, TAG_LIB, TAG_RX};
use crate::ctx::{lib, lib_tag, Ctx, NetCond};
use crate::env::Env;
use crate::flow::{self, Flow, Mapped, PE, RE, TS, UN};
use crate::hostile;
use crate::plan::Plan;
use crate::rng::{mix2, Rng};
use crate::tfrc::TfrcRef;
use crate::watch::RateWatch;
use crate::wire::{Dg, Fr, Grp, FRAG, ID_MASK, MAX_FRAME};
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::rc::Rc;
use uflow::verif::{Config, Frame, FrameSink, HalfConnection, PacketSink, Serialize};

#[derive(Default)]
struct Frames(Vec<Vec<u8>>);

impl FrameSink for Frames {
    fn send(&mut self, d: &[u8]) {
        let _h = alloc::scope(alloc::TAG_HARNESS);
        self.0.push(d.to_vec());
    }
}

#[derive(Default)]
struct Packets(Vec<Box<[u8]>>);

impl PacketSink for Packets {
    fn send(&mut self, d: Box<[u8]>) {
        let _h = alloc::scope(alloc::TAG_HARNESS);
        self.0.push(d);
    }
}

/// A data frame sent by an endpoint, as seen on the wire.
struct FrameRec {
    send_ms: u64,
    nonce: bool,
    frags: Vec<(u64, u16)>,
    acked: bool,
    size: usize,
    /// reached the other end
    arrived: bool,
}

/// The sender's frames and the acknowledgements it certainly accepted.
struct FrameBook {
    first: u32,
    next_abs: u64,
    base_abs: u64,
    tail: u64,
    recs: BTreeMap<u64, FrameRec>,
    forgot_before_ms: u64,
}

impl FrameBook {
    fn abs(&self, id: u32) -> u64 {
        let cur = self.next_abs + self.first as u64;
        let d = id.wrapping_sub(cur as u32) as i32;
        (cur as i64 + d as i64 - self.first as i64) as u64
    }

    /// Some((certain, parity ok, all known)) for an acknowledgement group.
    fn judge(&self, g: &Grp) -> (bool, bool, bool) {
        let n = 32 - g.bits.leading_zeros();
        let base = self.abs(g.base);
        let (mut certain, mut known, mut parity) = (n > 0, n > 0, false);
        for i in 0..n as u64 {
            match self.recs.get(&base.wrapping_add(i)) {
                None => {
                    known = false;
                    certain = false;
                }
                Some(r) => {
                    if r.send_ms <= self.forgot_before_ms + 5 || base.wrapping_add(i) < self.base_abs.saturating_sub(self.tail) {
                        certain = false;
                    }
                    if g.bits >> i & 1 == 1 {
                        parity ^= r.nonce;
                    }
                }
            }
        }
        (certain, parity == g.nonce, known)
    }
}

struct Ep {
    hc: Option<HalfConnection>,
    inbox: VecDeque<Vec<u8>>,
    interval: u64,
    jitter: u64,
    flush_ppm: i64,
    rng: Rng,
    steps: u64,
    stalled_until: u64,
    created_ns: u64,
    last_step_ms: u64,
    book: FrameBook,
    ceiling: u64,
    watch: RateWatch,
    rx_alloc: usize,
    peer_alloc: usize,
    pw: u32,
    prev_rate: f64,
    prev_rtt: Option<f64>,
    acks_since_step: u32,
    view: hostile::View,
    last_ack_base: (u32, u32),
    genuine_acks: Vec<Vec<u8>>,
    obs: Vec<u64>,
    hostile_rng: Rng,
    tfrc: TfrcRef,
    sent_data_frames: u64,
    rx_live0: isize,
    mitm: BTreeMap<u32, Dg>,
    /// receive window base of this endpoint, followed from what it was handed
    mitm_base: u32,
    w_peak: usize,
}

enum Ev {
    Tick(usize),
    Arrive(usize, Vec<u8>),
    Op(usize),
    Send { ep: usize, ch: u8, mode: u8, size: usize, left: i64, period: u64 },
    Hostile { ep: usize, kind: i64, left: i64, period: u64 },
    Flood { ep: usize, kind: i64, left: i64 },
}

struct Item(u64, u64, Ev);

impl PartialEq for Item {
    fn eq(&self, o: &Self) -> bool {
        (self.0, self.1) == (o.0, o.1)
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.0, self.1).cmp(&(o.0, o.1))
    }
}

pub struct Link<'a, 'b> {
    plan: &'a Plan,
    ctx: &'a mut Ctx<'b>,
    env: Rc<Env>,
    eps: Vec<Ep>,
    flows: Vec<Flow>,
    nets: Vec<NetCond>,
    q: BinaryHeap<Reverse<Item>>,
    seq: u64,
    now: u64,
    /// indices (flow, sub) of probe packets which must be delivered
    probes: Vec<(usize, usize)>,
    /// fragments which reached the other endpoint at least once (a measure of progress)
    frags_arrived: u64,
    /// C15: hand over injected acknowledgements (false in the twin run)
    inject: bool,
    injected: u64,
    hostile: bool,
    mitm_ppm: i64,
    last_progress: (u64, u64),
    sbs_nonzero: bool,
}

pub fn run(plan: &Plan, ctx: &mut Ctx) {
    if ctx.is(15) {
        let (a, n) = run_once(plan, ctx, true);
        if ctx.failed() {
            return;
        }
        let fates = ctx.fates.clone();
        let tr = ctx.trace;
        let ev = ctx.events;
        let (b, _) = run_once(plan, ctx, false);
        ctx.fates = fates;
        ctx.trace = tr;
        ctx.events = ev;
        ctx.nontrivial = n > 0;
        for e in 0..2 {
            if a[e] != b[e] {
                let i = a[e].iter().zip(&b[e]).position(|(x, y)| x != y).unwrap_or(a[e].len().min(b[e].len()));
                ctx.fail(15, "twin", || {
                    format!(
                        "endpoint {e}: {n} injected acknowledgements (wrong nonce, unknown frame or replayed) changed its \
                         behaviour from step {i} on (frames, RTT or rate differ from the run without them)"
                    )
                });
                return;
            }
        }
        return;
    }
    run_once(plan, ctx, true);
}

fn run_once(plan: &Plan, ctx: &mut Ctx, inject: bool) -> (Vec<Vec<u64>>, u64) {
    let live0 = alloc::live(TAG_LIB) + alloc::live(TAG_RX);
    let blocks0 = alloc::blocks(TAG_LIB) + alloc::blocks(TAG_RX);
    let env = Env::new();
    for e in 0..2 {
        env.add_node(plan.seed, plan.get(&format!("skew{e}"), 0), 1_000_000_000 + (mix2(plan.seed, e) % 5_000_000_000));
    }
    lib("set_backend", || ());
    uflow::verif::set_backend(Some(env.clone()));
    let mut l = Link {
        plan,
        ctx,
        env,
        eps: Vec::new(),
        flows: Vec::new(),
        nets: (0..2).map(|d| NetCond::new(plan.seed, d)).collect(),
        q: BinaryHeap::new(),
        seq: 0,
        now: 0,
        probes: Vec::new(),
        frags_arrived: 0,
        inject,
        injected: 0,
        hostile: plan.get("hostile", 0) != 0,
        mitm_ppm: plan.get("mitm", 0),
        last_progress: (0, 0),
        sbs_nonzero: false,
    };
    l.setup();
    l.main_loop();
    let obs = l.eps.iter_mut().map(|e| std::mem::take(&mut e.obs)).collect();
    let injected = l.injected;
    // Teardown.
    for e in 0..2 {
        let hc = l.eps[e].hc.take();
        lib("drop", move || drop(hc));
    }
    drop(l);
    uflow::verif::set_backend(None);
    if ctx.is(19) {
        if let Some(f) = alloc::take_fault() {
            ctx.fail(19, "heap", || format!("allocator contract broken: {f:?}"));
        }
        let live = alloc::live(TAG_LIB) + alloc::live(TAG_RX) - live0;
        let blocks = alloc::blocks(TAG_LIB) + alloc::blocks(TAG_RX) - blocks0;
        if live != 0 || blocks != 0 {
            ctx.fail(19, "leak", || format!("{live} bytes in {blocks} blocks not returned after dropping both endpoints"));
        }
    }
    (obs, injected)
}

impl Link<'_, '_> {
    fn push(&mut self, t: u64, ev: Ev) {
        self.seq += 1;
        self.q.push(Reverse(Item(t, self.seq, ev)));
    }

    fn setup(&mut self) {
        let p = self.plan;
        let g = |k: &str, e: usize, d: i64| p.get(&format!("{k}{e}"), d);
        for e in 0..2 {
            self.env.cur.set(e);
            let o = 1 - e;
            let cfg = Config {
                tx_frame_base_id: g("fb", e, 0) as u32,
                rx_frame_base_id: g("fb", o, 0) as u32,
                tx_frame_window_size: 1 << g("fw", e, 12),
                rx_frame_window_size: 1 << g("fw", o, 12),
                tx_packet_base_id: g("pb", e, 0) as u32 & ID_MASK,
                rx_packet_base_id: g("pb", o, 0) as u32 & ID_MASK,
                tx_packet_window_size: 1 << g("pw", e, 12),
                rx_packet_window_size: 1 << g("pw", o, 12),
                tx_bandwidth_limit: g("rate", e, 2_000_000) as u32,
                tx_alloc_limit: g("hal", e, g("al", o, 1_000_000)) as usize,
                rx_alloc_limit: g("al", e, 1_000_000) as usize,
                keepalive_interval_ms: (g("ka", e, 5000) >= 0).then(|| g("ka", e, 5000) as u64),
            };
            let c2 = cfg.clone();
            let created_ns = self.env.local_ns(e);
            let hc = lib("new", || HalfConnection::new(c2));
            let mut rng = Rng::stream(p.seed, 0x71C0 + e as u64);
            let interval = g("tick", e, 15_000) as u64;
            let first = rng.below(interval + 1);
            let rx_live0 = alloc::live(TAG_RX);
            let prev_rate = hc.verif_send_rate();
            self.eps.push(Ep {
                hc: Some(hc),
                inbox: VecDeque::new(),
                interval,
                jitter: g("jit", e, 0) as u64,
                flush_ppm: g("fl", e, 0),
                rng,
                steps: 0,
                stalled_until: 0,
                created_ns,
                last_step_ms: 0,
                book: FrameBook {
                    first: cfg.tx_frame_base_id,
                    next_abs: 0,
                    base_abs: 0,
                    tail: cfg.tx_frame_window_size as u64,
                    recs: BTreeMap::new(),
                    forgot_before_ms: 0,
                },
                ceiling: cfg.tx_bandwidth_limit as u64,
                watch: RateWatch::new(cfg.tx_bandwidth_limit as u64),
                rx_alloc: cfg.rx_alloc_limit,
                peer_alloc: cfg.tx_alloc_limit,
                pw: cfg.tx_packet_window_size,
                prev_rate,
                prev_rtt: None,
                acks_since_step: 0,
                view: hostile::View {
                    rx_frame: cfg.rx_frame_base_id,
                    rx_packet: cfg.rx_packet_base_id,
                    rx_packet_next: cfg.rx_packet_base_id,
                    tx_frame_base: cfg.tx_frame_base_id,
                    tx_frame_next: cfg.tx_frame_base_id,
                    tx_packet_base: cfg.tx_packet_base_id,
                    tx_packet_next: cfg.tx_packet_base_id,
                    win: cfg.rx_frame_window_size,
                    ..Default::default()
                },
                last_ack_base: (cfg.tx_frame_base_id, cfg.tx_packet_base_id),
                genuine_acks: Vec::new(),
                obs: Vec::new(),
                hostile_rng: Rng::stream(p.seed, 0x4057 + e as u64),
                tfrc: TfrcRef::new(),
                sent_data_frames: 0,
                rx_live0,
                mitm: BTreeMap::new(),
                mitm_base: cfg.rx_frame_base_id,
                w_peak: 0,
            });
            let mut f = Flow::new(p.seed, e as u8, cfg.tx_packet_base_id);
            f.ideal = p.get("ideal", 0) != 0;
            self.flows.push(f);
            self.push(first, Ev::Tick(e));
        }
        for (i, o) in p.ops.iter().enumerate() {
            self.seq += 1;
            self.q.push(Reverse(Item(o.t, self.seq, Ev::Op(i))));
        }
    }

    fn main_loop(&mut self) {
        let end = self.plan.get("end", 10_000_000) as u64;
        let quiet = self.plan.get("quiet", 0) != 0;
        let limit = self.plan.get("limit", 40_000) as u64 * 1_000_000;
        let stall = self.plan.get("stall_s", 5400) as u64 * 1_000_000;
        let hard_events = self.plan.get("max_events", 8_000_000) as u64;
        while let Some(Reverse(Item(t, _, ev))) = self.q.pop() {
            if t > end && !quiet {
                break;
            }
            self.now = self.now.max(t);
            self.ctx.now = self.now;
            self.env.now_us.set(self.now);
            self.ctx.events += 1;
            match ev {
                Ev::Tick(e) => self.tick(e),
                Ev::Arrive(e, b) => self.eps[e].inbox.push_back(b),
                Ev::Op(i) => self.op(i),
                Ev::Send { ep, ch, mode, size, left, period } => {
                    self.submit(ep, ch, mode, size);
                    if left > 1 {
                        self.push(self.now + period, Ev::Send { ep, ch, mode, size, left: left - 1, period });
                    }
                }
                Ev::Hostile { ep, kind, left, period } => {
                    let mut r = self.eps[ep].hostile_rng.clone();
                    let k = if kind < 0 { r.below(11) as i64 } else { kind };
                    let b = hostile::build(k, &mut r, &self.eps[ep].view);
                    self.eps[ep].hostile_rng = r;
                    self.ctx.stats.bump("fault:hostile_frame");
                    self.eps[ep].inbox.push_back(b);
                    if left > 1 {
                        self.push(self.now + period, Ev::Hostile { ep, kind, left: left - 1, period });
                    }
                }
                Ev::Flood { ep, kind, left } => {
                    for _ in 0..left {
                        let mut r = self.eps[ep].hostile_rng.clone();
                        let b = hostile::build(kind, &mut r, &self.eps[ep].view);
                        self.eps[ep].hostile_rng = r;
                        self.handle(ep, b);
                        if self.ctx.failed() {
                            break;
                        }
                    }
                    self.ctx.stats.bump("fault:flood");
                }
            }
            if self.ctx.failed() {
                return;
            }
            if self.now > end && quiet {
                if self.is_quiet() {
                    break;
                }
                let prog = self.flows.iter().map(|f| f.delivered + f.base_abs).sum::<u64>() + self.frags_arrived;
                if prog != self.last_progress.0 {
                    self.last_progress = (prog, self.now);
                }
                if self.now - self.last_progress.1.max(end) > stall || self.now > end + limit {
                    self.stalled();
                    break;
                }
                if self.ctx.events > hard_events {
                    self.ctx.stats.bump("info:event_limit");
                    break;
                }
            }
        }
        if !self.ctx.failed() {
            self.final_checks();
        }
        let sim = self.now;
        self.ctx.stats.sim_us += sim;
    }

    fn is_quiet(&self) -> bool {
        let probes_ok = self.probes.iter().all(|&(f, s)| self.flows[f].subs[s].delivered);
        if self.plan.get("stream", 0) != 0 {
            return probes_ok && self.now > self.plan.get("end", 0) as u64 + 3_000_000 && self.flows.iter().all(|f| f.rel_left == 0);
        }
        probes_ok
            && (0..2).all(|e| {
                let hc = self.eps[e].hc.as_ref().unwrap();
                !hc.is_send_pending() && hc.send_buffer_size() == 0 && self.flows[e].rel_left == 0
            })
            && (self.plan.get("ideal", 0) == 0 || self.flows.iter().all(|f| f.first_missing().is_none()))
    }

    fn describe_stall(&self) -> String {
        let mut s = String::new();
        for e in 0..2 {
            let hc = self.eps[e].hc.as_ref().unwrap();
            s.push_str(&format!(
                "endpoint {e}: send pending {}, buffer {}, undelivered Reliable {}, rate {:.0} B/s, rtt {:?}; ",
                hc.is_send_pending(),
                hc.send_buffer_size(),
                self.flows[e].rel_left,
                hc.verif_send_rate(),
                hc.rtt_s()
            ));
        }
        for &(f, i) in &self.probes {
            if !self.flows[f].subs[i].delivered {
                s.push_str(&format!("probe packet {i} (mode {}) of endpoint {f} undelivered; ", self.flows[f].subs[i].mode));
            }
        }
        s
    }

    fn stalled(&mut self) {
        let d = self.describe_stall();
        let secs = (self.now - self.plan.get("end", 0) as u64) / 1_000_000;
        for p in [2u8, 11, 20, 5, 4, 6] {
            let applies = match p {
                2 => true,
                11 => true,
                20 => self.flows.iter().all(|f| f.rel_left == 0 && f.base_abs == f.next_abs),
                5 => self.plan.get("ideal", 0) != 0,
                4 => self.flows.iter().any(|f| f.rel_left > 0),
                _ => self.plan.get("ideal", 0) != 0,
            };
            if applies {
                self.ctx.fail(p, "stall", || format!("not quiescent {secs} s after the network became clean: {d}"));
            }
        }
    }

    fn final_checks(&mut self) {
        let ideal = self.plan.get("ideal", 0) != 0;
        let quiet = self.plan.get("quiet", 0) != 0;
        for d in 0..2 {
            if quiet {
                if let Some(i) = self.flows[d].first_missing_reliable() {
                    for p in [2, 4] {
                        self.ctx.fail(p, "undelivered", || format!("Reliable packet {i} of endpoint {d} never delivered"));
                    }
                }
                if ideal {
                    if let Some(i) = self.flows[d].first_missing() {
                        for p in [5, 6] {
                            self.ctx.fail(p, "undelivered", || {
                                format!("packet {i} of endpoint {d} never delivered although the network lost nothing")
                            });
                        }
                    }
                }
                let hc = self.eps[d].hc.as_ref().unwrap();
                let (pend, sbs) = (hc.is_send_pending(), hc.send_buffer_size());
                if self.flows[d].base_abs == self.flows[d].next_abs && !pend && sbs != 0 {
                    self.ctx.fail(20, "nonzero", || format!("send_buffer_size() is {sbs} after everything was acknowledged"));
                }
            }
        }
        if let Some(bound) = self.plan.p.get("done_by") {
            // Throughput recovery: everything must have been delivered by this time.
            if self.now > *bound as u64 {
                let d = self.describe_stall();
                let n = self.now;
                self.ctx.fail(11, "pinned", || {
                    format!("bulk transfer on a clean network finished at {n} us, after the deadline {bound} us: {d}")
                });
            }
        }
        let del: u64 = self.flows.iter().map(|f| f.delivered).sum();
        let frames: u64 = self.eps.iter().map(|e| e.sent_data_frames).sum();
        self.ctx.nontrivial |= if self.hostile { frames > 0 || self.ctx.events > 20 } else { del > 2 && frames > 2 };
    }

    fn op(&mut self, i: usize) {
        let plan = self.plan;
        let o = &plan.ops[i];
        let a = &o.a;
        let g = |i: usize, d: i64| a.get(i).copied().unwrap_or(d);
        if self.ctx.verbose {
            self.ctx.note(|| format!("op {} {:?}", o.k, a));
        }
        match o.k {
            "send" | "bulk" => {
                let (ep, ch, mode, size) = (g(0, 0) as usize & 1, g(1, 0) as u8 & 63, g(2, 3) as u8 & 3, g(3, 0) as usize);
                let (count, period) = (g(4, 1), g(5, 0) as u64);
                if period == 0 {
                    for _ in 0..count {
                        self.submit(ep, ch, mode, size);
                    }
                } else if count > 0 {
                    self.push(self.now, Ev::Send { ep, ch, mode, size, left: count, period });
                }
            }
            "probe" => {
                // One packet of every mode on every given channel, in each direction asked for.
                let ep = g(0, 0) as usize & 1;
                let size = g(2, 20) as usize;
                for mode in [RE, PE, UN] {
                    let i = self.flows[ep].subs.len();
                    self.submit(ep, g(1, 0) as u8 & 63, mode, size.max(8));
                    self.probes.push((ep, i));
                }
                self.ctx.stats.bump("probe:probes_sent");
            }
            "net" => {
                for d in 0..2 {
                    if g(0, 2) == 2 || g(0, 2) == d {
                        self.nets[d as usize].apply(&a[1..]);
                    }
                }
                self.ctx.stats.bump("fault:net_change");
            }
            "cut" => {
                for d in 0..2 {
                    if g(0, 2) == 2 || g(0, 2) == d {
                        self.nets[d as usize].cut_until = self.now + g(1, 0) as u64;
                        self.nets[d as usize].cut_mask = g(2, 15);
                    }
                }
                self.ctx.stats.bump("fault:partition");
            }
            "burst" => {
                self.nets[g(0, 0) as usize & 1].burst = g(1, 0) as u32;
                self.ctx.stats.bump("fault:burst");
            }
            "cadence" => {
                let e = &mut self.eps[g(0, 0) as usize & 1];
                e.interval = g(1, 15_000).max(100) as u64;
                e.jitter = g(2, 0).max(0) as u64;
                self.ctx.stats.bump("fault:cadence_change");
            }
            "stall" => {
                self.eps[g(0, 0) as usize & 1].stalled_until = self.now + g(1, 0) as u64;
                self.ctx.stats.bump("fault:stall");
            }
            "flush" => {
                let ep = g(0, 0) as usize & 1;
                for _ in 0..g(1, 1) {
                    self.flush(ep);
                }
                self.ctx.stats.bump("fault:extra_flush");
            }
            "hostile" => {
                let (ep, kind, n, period) = (g(0, 0) as usize & 1, g(1, -1), g(2, 1), g(3, 0).max(1) as u64);
                self.push(self.now, Ev::Hostile { ep, kind, left: n, period });
            }
            "raw" => {
                let (ep, kind, n) = (g(0, 0) as usize & 1, g(1, 2), g(2, 1));
                self.push(self.now, Ev::Flood { ep, kind, left: n });
            }
            "inject" => {
                if self.inject {
                    self.inject_ack(g(0, 0) as usize & 1, g(1, 0), g(2, 0) as u64);
                }
            }
            _ => {}
        }
    }

    fn submit(&mut self, ep: usize, ch: u8, mode: u8, size: usize) {
        let steps = self.eps[ep].steps;
        let p = self.flows[ep].submit(self.now, steps, ch, mode, size);
        self.env.cur.set(ep);
        let hc = self.eps[ep].hc.as_mut().unwrap();
        lib("send", || hc.send(p.as_slice().into(), ch, flow::mode_of(mode)));
        self.ctx.stats.bump("submissions");
        self.after_call(ep);
    }

    fn after_call(&mut self, ep: usize) {
        if self.ctx.is(20) && !self.hostile {
            let sbs = self.eps[ep].hc.as_ref().unwrap().send_buffer_size() as u64;
            if self.flows[ep].map_ok {
                let (lo, hi) = self.flows[ep].size_bounds(self.eps[ep].steps);
                self.sbs_nonzero |= sbs > 0;
                if sbs < lo || sbs > hi {
                    self.ctx.fail(20, "size", || {
                        format!("endpoint {ep}: send_buffer_size() is {sbs}, but {lo}..={hi} bytes are unacknowledged")
                    });
                }
            } else if sbs > self.flows[ep].accepted_bytes {
                let a = self.flows[ep].accepted_bytes;
                self.ctx.fail(20, "size", || format!("send_buffer_size() is {sbs}, more than the {a} bytes ever accepted"));
            }
        }
        if self.ctx.is(19) {
            if let Some(f) = alloc::take_fault() {
                self.ctx.fail(19, "heap", || format!("allocator contract broken: {f:?}"));
            }
        }
    }

    fn local_ms(&self, ep: usize) -> u64 {
        (self.env.local_ns(ep) - self.eps[ep].created_ns) / 1_000_000
    }

    fn flush(&mut self, ep: usize) {
        self.env.cur.set(ep);
        let mut sink = Frames::default();
        let hc = self.eps[ep].hc.as_mut().unwrap();
        lib("flush", || hc.flush(&mut sink));
        if !sink.0.is_empty() {
            self.emitted(ep, sink.0);
        }
        self.after_call(ep);
    }

    fn emitted(&mut self, ep: usize, frames: Vec<Vec<u8>>) {
        let ns = self.env.local_ns(ep);
        let rtt = self.eps[ep].hc.as_ref().unwrap().rtt_s().unwrap_or(0.0);
        for b in frames {
            self.ctx.tr_bytes(&b);
            let decoded = Fr::decode(&b);
            if b.len() > MAX_FRAME {
                let n = b.len();
                self.ctx.fail(4, "framesize", || format!("endpoint {ep} emitted a frame of {n} bytes"));
            }
            if self.ctx.is(13) {
                self.rate_check(ep, ns, b.len(), rtt);
            }
            if self.ctx.is(15) {
                let h = crate::wire::crc(&b) as u64 | (b.len() as u64) << 32;
                self.eps[ep].obs.push(h);
            }
            match &decoded {
                None => {
                    self.ctx.stats.bump("info:emitted_undecodable");
                    if (self.ctx.is(2) || self.ctx.is(4) || self.ctx.is(5)) && lib("read", || Frame::read(&b).is_none()) {
                        // Every receiver discards it, as often as it is sent.
                        let n = b.len();
                        for p in [2u8, 4, 5] {
                            self.ctx.fail(p, "garbage", || format!("endpoint {ep} emitted {n} bytes which are not a frame"));
                        }
                    }
                }
                Some(fr) => self.on_emit(ep, fr, b.len()),
            }
            if self.ctx.verbose {
                self.ctx.note(|| format!("ep {ep} emits {}", brief(decoded.as_ref(), b.len())));
            }
            let other = 1 - ep;
            {
                let v = &mut self.eps[other].view;
                if v.recent.len() >= 24 {
                    v.recent.remove(0);
                }
                if self.hostile {
                    v.recent.push(b.clone());
                }
            }
            let out = self.nets[ep].transmit(self.ctx, self.plan, ep as u32, self.now, &b);
            for (t, bytes) in out {
                self.push(t, Ev::Arrive(other, bytes));
            }
        }
    }

    fn rate_check(&mut self, ep: usize, ns: u64, len: usize, rtt: f64) {
        if let Some(m) = self.eps[ep].watch.push(ns, len, rtt) {
            self.ctx.fail(13, "rate", || format!("endpoint {ep}, {m}"));
        }
    }

    fn on_emit(&mut self, ep: usize, fr: &Fr, len: usize) {
        let steps = self.eps[ep].steps;
        match fr {
            Fr::Data { id, nonce, dgs } => {
                self.eps[ep].sent_data_frames += 1;
                self.ctx.stats.bump("data_frames");
                let abs = self.eps[ep].book.abs(*id);
                let mut frags = Vec::new();
                for dg in dgs {
                    let (m, a) = self.flows[ep].on_datagram(self.ctx, dg);
                    frags.push((a, dg.frag));
                    if self.hostile || !self.flows[ep].map_ok {
                        continue;
                    }
                    match m {
                        Mapped::No => {
                            self.ctx.fail(12, "after_window", || {
                                format!("endpoint {ep} transmitted packet id +{a} although the peer had reported moving past it")
                            });
                        }
                        Mapped::New | Mapped::Known => {
                            let now = self.now;
                            let f = &mut self.flows[ep];
                            let p = f.pkts.get_mut(&a).unwrap();
                            let s = &f.subs[p.sub];
                            let (sub, mode, sub_step) = (p.sub, s.mode, s.step);
                            let k = dg.frag as usize;
                            if k >= p.tx.len() {
                                self.ctx.fail(4, "fragment", || format!("packet {sub} sent with fragment {k} of {}", dg.last));
                                continue;
                            }
                            p.tx[k] += 1;
                            p.last_tx_t[k] = now;
                            let (tx, acked, wl, cl) = (p.tx[k], p.acked[k], p.wlead, p.clead);
                            if tx > 1 {
                                self.ctx.stats.bump("probe:fragment_resent");
                                if mode == TS || mode == UN {
                                    self.ctx.fail(12, "resent", || {
                                        format!("fragment {k} of packet {sub} (mode {mode}) transmitted {tx} times")
                                    });
                                }
                                if acked {
                                    self.ctx.fail(12, "after_ack", || {
                                        format!("fragment {k} of packet {sub} (mode {mode}) transmitted again after its acknowledgement was processed")
                                    });
                                }
                            }
                            if matches!(m, Mapped::New) && mode == TS && sub_step != steps {
                                self.ctx.fail(12, "stale_ts", || {
                                    format!("TimeSensitive packet {sub} submitted after step {sub_step} first transmitted after step {steps}")
                                });
                            }
                            if wl != dg.wlead || cl != dg.clead {
                                self.ctx.fail(4, "header", || format!("fragments of packet {sub} carry different headers"));
                            }
                        }
                    }
                }
                let ms = self.eps[ep].last_step_ms;
                let e = &mut self.eps[ep];
                if abs == e.book.next_abs {
                    e.book.next_abs += 1;
                }
                e.book.recs.insert(abs, FrameRec { send_ms: ms, nonce: *nonce, frags, acked: false, size: len, arrived: false });
                while e.book.recs.len() > 20_000 {
                    e.book.recs.pop_first();
                }
                e.view.tx_frame_next = id.wrapping_add(1);
                for dg in dgs {
                    e.view.tx_packet_next = dg.id.wrapping_add(1) & ID_MASK;
                }
                e.view.nonces.push((*id, *nonce));
                if e.view.nonces.len() > 80 {
                    e.view.nonces.drain(..40);
                }
                for dg in dgs {
                    self.eps[1 - ep].view.rx_packet_next = dg.id.wrapping_add(1) & ID_MASK;
                }
                self.eps[1 - ep].view.rx_frame = id.wrapping_add(1);
                if self.ctx.is(6) && !self.hostile && self.flows[ep].map_ok {
                    let f = &self.flows[ep];
                    let out = f.next_abs - f.base_abs;
                    let lim = (self.eps[ep].peer_alloc + FRAG - 1) / FRAG * FRAG;
                    let pw = self.eps[ep].pw as u64;
                    let oa = f.outstanding_alloc;
                    if out > pw.min(4096) {
                        self.ctx.fail(6, "window", || format!("endpoint {ep} has {out} packets outstanding"));
                    }
                    if oa > lim {
                        self.ctx.fail(6, "sender_alloc", || {
                            format!("endpoint {ep} has {oa} fragment-rounded bytes outstanding; its peer advertised {lim}")
                        });
                    }
                    if oa * 10 >= lim * 9 {
                        self.ctx.stats.bump("probe:alloc_nearly_full");
                    }
                    if out * 10 >= pw * 9 {
                        self.ctx.stats.bump("probe:packet_window_nearly_full");
                    }
                }
                self.state_sample(ep);
            }
            Fr::Sync { frame, packet } => {
                self.ctx.stats.bump("sync_frames");
                if frame.is_some() {
                    self.ctx.stats.bump("probe:sync_with_frame_id");
                }
                if packet.is_some() {
                    self.ctx.stats.bump("probe:sync_with_packet_id");
                }
            }
            Fr::Ack { pbase, groups, .. } => {
                self.ctx.stats.bump("ack_frames");
                // What this endpoint, as a receiver, advertises.
                self.eps[ep].view.rx_packet = *pbase;
                if !self.hostile {
                    self.own_acks(ep, groups);
                }
            }
            _ => {}
        }
    }

    /// An acknowledgement covers frames which arrived, in a way that the sender accepts.
    fn own_acks(&mut self, ep: usize, groups: &[Grp]) {
        for g in groups {
            let book = &self.eps[1 - ep].book;
            let mut parity = false;
            let mut known = true;
            for i in (0..32).filter(|i| g.bits >> i & 1 != 0) {
                match book.recs.get(&book.abs(g.base.wrapping_add(i))) {
                    Some(r) if r.arrived => parity ^= r.nonce,
                    Some(_) => {
                        let id = g.base.wrapping_add(i);
                        for p in [2u8, 12, 20] {
                            self.ctx.fail(p, "false_ack", || format!("endpoint {ep} acknowledges frame {id}, which never reached it"));
                        }
                        return;
                    }
                    None => {
                        known = false;
                        break;
                    }
                }
            }
            if known && parity != g.nonce {
                for p in [2u8, 11] {
                    self.ctx.fail(p, "unusable_ack", || {
                        format!("endpoint {ep} acknowledges frames from {} (bitfield {:08x}) with a nonce parity which they do not have", g.base, g.bits)
                    });
                }
                return;
            }
        }
    }

    fn state_sample(&mut self, ep: usize) {
        let e = &self.eps[ep];
        let hc = e.hc.as_ref().unwrap();
        let f = &self.flows[ep];
        let lg = |v: u64| 64 - v.leading_zeros() as u64;
        let mut h = lg(f.next_abs - f.base_abs.min(f.next_abs));
        h = mix2(h, lg(e.book.next_abs - e.book.base_abs.min(e.book.next_abs)));
        h = mix2(h, lg(hc.send_buffer_size() as u64));
        h = mix2(h, lg(hc.verif_send_rate() as u64));
        h = mix2(h, lg(hc.rtt_s().map_or(0, |r| (r * 1000.0) as u64 + 1)));
        h = mix2(h, lg(f.outstanding_alloc as u64));
        h = mix2(h, f.pkts.values().next().map_or(0, |p| f.subs[p.sub].mode as u64 + 1 + 8 * lg(p.last as u64)));
        h = mix2(h, hc.is_send_pending() as u64 + 2 * (f.rel_left > 0) as u64);
        h = mix2(h, lg(f.next_abs - f.pkts.values().filter(|p| p.tx.iter().any(|t| *t > 1)).count() as u64 % 8));
        self.ctx.stats.state(h);
    }

    fn tick(&mut self, ep: usize) {
        let (interval, jitter) = (self.eps[ep].interval, self.eps[ep].jitter);
        let d = interval + self.eps[ep].rng.below(jitter + 1);
        let fl = {
            let p = self.eps[ep].flush_ppm;
            self.eps[ep].rng.chance(p)
        };
        self.push(self.now + d, Ev::Tick(ep));
        if self.eps[ep].stalled_until > self.now {
            return;
        }
        self.flush(ep);
        if self.ctx.failed() {
            return;
        }
        while let Some(b) = self.eps[ep].inbox.pop_front() {
            self.handle(ep, b);
            if self.ctx.failed() {
                return;
            }
        }
        self.step(ep);
        if self.ctx.failed() {
            return;
        }
        self.receive(ep);
        if fl {
            self.flush(ep);
        }
    }

    fn step(&mut self, ep: usize) {
        self.env.cur.set(ep);
        let ms = self.local_ms(ep);
        let hc = self.eps[ep].hc.as_mut().unwrap();
        // Oldest send time which the coming step may forget.
        let rtt_ms = hc.rtt_s().map_or(150, |r| (r * 1000.0).round() as u64);
        lib("step", || hc.step());
        let (rate, rtt) = (hc.verif_send_rate(), hc.rtt_s());
        let th = ms.saturating_sub(rtt_ms * 4);
        let e = &mut self.eps[ep];
        e.book.forgot_before_ms = e.book.forgot_before_ms.max(th);
        e.steps += 1;
        e.last_step_ms = ms;
        if self.ctx.is(15) {
            let h = mix2(rate.to_bits(), rtt.map_or(1, |r| r.to_bits()));
            self.eps[ep].obs.push(h);
        }
        if self.ctx.is(14) && !self.hostile {
            self.tfrc_check(ep, ms, rate, rtt);
        }
        if self.ctx.is(14) {
            let e = &self.eps[ep];
            if e.acks_since_step == 0 {
                if rate > e.prev_rate {
                    let p = e.prev_rate;
                    self.ctx.fail(14, "increase", || format!("endpoint {ep}: rate rose from {p} to {rate} B/s without feedback"));
                } else if rtt != e.prev_rtt {
                    self.ctx.fail(14, "rtt", || format!("endpoint {ep}: RTT estimate changed without feedback"));
                }
            }
            let e = &self.eps[ep];
            if rate > e.ceiling as f64 && e.ceiling >= MAX_FRAME as u64 {
                let c = e.ceiling;
                self.ctx.fail(14, "ceiling", || format!("endpoint {ep}: rate {rate} B/s above the ceiling {c}"));
            }
            if rate < 23.0 && (e.ceiling >= 23) {
                self.ctx.fail(14, "floor", || format!("endpoint {ep}: rate {rate} B/s below s/64"));
            }
            if rate <= 24.0 {
                self.ctx.stats.bump("probe:rate_at_floor");
            }
        }
        let e = &mut self.eps[ep];
        e.prev_rate = rate;
        e.prev_rtt = rtt;
        e.acks_since_step = 0;
        if self.ctx.is(12) && self.plan.get("retx", 0) != 0 && self.now > self.plan.get("retx_from", 0) as u64 {
            self.retx_check(ep);
        }
        self.after_call(ep);
    }

    fn tfrc_check(&mut self, ep: usize, ms: u64, rate: f64, rtt: Option<f64>) {
        let e = &mut self.eps[ep];
        // Send time of the oldest frame whose fate (acknowledged or lost) is still open.
        let oldest = e.book.recs.get(&e.tfrc.first_unjudged()).map(|r| r.send_ms);
        if let Some((class, msg)) = e.tfrc.on_step(ms, e.prev_rate, rate, e.prev_rtt, rtt, e.ceiling as f64, oldest) {
            self.ctx.fail(14, class, || format!("endpoint {ep}: {msg}"));
        }
        if self.eps[ep].tfrc.loss_checked {
            self.eps[ep].tfrc.loss_checked = false;
            self.ctx.stats.bump("probe:tfrc_equation_checked");
        }
    }

    fn retx_check(&mut self, ep: usize) {
        let rtt = self.eps[ep].hc.as_ref().unwrap().rtt_s().unwrap_or(0.15);
        let f = &self.flows[ep];
        // Everything which was ever outstanding at the same time may have been sent again in between.
        let w: usize = f.pkts.values().map(|p| f.subs[p.sub].size + 40).sum();
        self.eps[ep].w_peak = self.eps[ep].w_peak.max(w);
        let w = self.eps[ep].w_peak;
        let f = &self.flows[ep];
        let lim = ((8.0 * rtt + 8.0 * w as f64 / 23.0 + 140.0) * 1e6) as u64;
        for p in f.pkts.values() {
            let s = &f.subs[p.sub];
            if s.mode != PE && s.mode != RE {
                continue;
            }
            for k in 0..p.tx.len() {
                let since = self.now - p.last_tx_t[k];
                if p.tx[k] > 0 && !p.maybe[k] && since > lim {
                    let (sub, m) = (p.sub, s.mode);
                    self.ctx.fail(12, "not_resent", || {
                        format!("fragment {k} of packet {sub} (mode {m}) unacknowledged and not retransmitted for {} s", since / 1_000_000)
                    });
                    return;
                }
                if p.tx[k] > 2 {
                    self.ctx.stats.bump("probe:resent_repeatedly");
                }
            }
        }
    }

    fn receive(&mut self, ep: usize) {
        self.env.cur.set(ep);
        let mut sink = Packets::default();
        let hc = self.eps[ep].hc.as_mut().unwrap();
        lib("receive", || hc.receive(&mut sink));
        for d in sink.0 {
            self.ctx.tr(d.len() as u64);
            if self.hostile && self.plan.get("hostile", 0) == 1 {
                continue;
            }
            let r = self.flows[1 - ep].deliver(self.ctx, &d);
            if self.ctx.verbose {
                self.ctx.note(|| format!("ep {ep} delivers packet {r:?} ({} bytes)", d.len()));
            }
        }
        self.after_call(ep);
        self.rx_check(ep);
    }

    fn rx_check(&mut self, ep: usize) {
        if !self.ctx.is(6) || self.plan.get("rxmeasure", -1) != ep as i64 {
            return;
        }
        let live = alloc::live(TAG_RX) - self.eps[ep].rx_live0;
        let lim = (self.eps[ep].rx_alloc + FRAG - 1) / FRAG * FRAG;
        let allow = self.plan.get("rxconst", 16_384) as usize + lim / (2 * FRAG) * 16 + lim / FRAG;
        if live > (lim + allow) as isize {
            self.ctx.fail(6, "rx_memory", || {
                format!("endpoint {ep} holds {live} bytes obtained while receiving; max_receive_alloc rounds up to {lim} (+{allow} fixed overhead)")
            });
        }
        if live * 10 > lim as isize * 8 {
            self.ctx.stats.bump("probe:rx_memory_nearly_full");
        }
    }

    fn handle(&mut self, ep: usize, b: Vec<u8>) {
        let decoded = Fr::decode(&b);
        // Work out what the frame tells the harness' own books before the endpoint sees it.
        let mut b = b;
        if self.mitm_ppm > 0 {
            if let Some(fr) = &decoded {
                if let Some(nb) = self.mitm(ep, fr) {
                    b = nb;
                }
            }
        }
        match &decoded {
            Some(Fr::Ack { fbase, pbase, groups }) => self.on_ack(ep, &b, *fbase, *pbase, groups),
            Some(Fr::Data { id, dgs, .. }) => {
                let a = self.eps[1 - ep].book.abs(*id);
                if let Some(r) = self.eps[1 - ep].book.recs.get_mut(&a) {
                    r.arrived = true;
                }
                let fl = &mut self.flows[1 - ep];
                for d in dgs {
                    let a = fl.abs(d.id);
                    if let Some(r) = fl.pkts.get_mut(&a).and_then(|p| p.rx.get_mut(d.frag as usize)) {
                        self.frags_arrived += !*r as u64;
                        *r = true;
                    }
                }
                let e = &mut self.eps[ep];
                if id.wrapping_sub(e.mitm_base) < e.view.win {
                    e.mitm_base = id.wrapping_add(1);
                }
                let v = &mut e.view;
                if id.wrapping_sub(v.rx_frame) < v.win {
                    v.rx_frame = id.wrapping_add(1);
                }
            }
            Some(Fr::Sync { frame: Some(f), .. }) => {
                let e = &mut self.eps[ep];
                if f.wrapping_sub(e.mitm_base) <= e.view.win {
                    e.mitm_base = *f;
                }
                let v = &mut e.view;
                let d = f.wrapping_sub(v.rx_frame);
                if d <= v.win {
                    v.rx_frame = *f;
                }
            }
            _ => {}
        }
        self.env.cur.set(ep);
        self.ctx.tr(b.len() as u64 | 1 << 40);
        let hc = self.eps[ep].hc.as_mut().unwrap();
        // Memory is attributed to the endpoint under measurement only.
        let tag = if self.plan.get("rxmeasure", -1) == ep as i64 { TAG_RX } else { alloc::TAG_LIB };
        let accepted = lib_tag("handle", tag, || match Frame::read(&b) {
            Some(Frame::DataFrame(f)) => {
                hc.handle_data_frame(f);
                true
            }
            Some(Frame::SyncFrame(f)) => {
                hc.handle_sync_frame(f);
                true
            }
            Some(Frame::AckFrame(f)) => {
                hc.handle_ack_frame(f);
                true
            }
            Some(_) => true,
            None => false,
        });
        if !accepted {
            self.ctx.stats.bump("probe:frame_rejected");
        }
        self.after_call(ep);
        self.rx_check(ep);
    }

    fn on_ack(&mut self, ep: usize, raw: &[u8], fbase: u32, pbase: u32, groups: &[Grp]) {
        let e = &mut self.eps[ep];
        e.acks_since_step += 1;
        e.genuine_acks.push(raw.to_vec());
        if e.genuine_acks.len() > 40 {
            e.genuine_acks.remove(0);
        }
        for g in groups {
            let (certain, parity, known) = e.book.judge(g);
            let n = 32 - g.bits.leading_zeros();
            let base = e.book.abs(g.base);
            if known && parity && !certain {
                self.ctx.stats.bump("info:uncertain_acks");
                e.tfrc.uncertain = true;
            }
            for i in (0..n as u64).filter(|i| g.bits >> i & 1 == 1) {
                for &(a, k) in e.book.recs.get(&base.wrapping_add(i)).map_or(&[][..], |r| &r.frags) {
                    if let Some(f) = self.flows[ep].pkts.get_mut(&a).and_then(|p| p.maybe.get_mut(k as usize)) {
                        *f = true;
                    }
                }
            }
            if !(certain && parity) {
                continue;
            }
            for i in 0..n as u64 {
                if g.bits >> i & 1 == 0 {
                    continue;
                }
                let r = e.book.recs.get_mut(&base.wrapping_add(i)).unwrap();
                if !r.acked {
                    r.acked = true;
                    e.tfrc.on_newly_acked(base.wrapping_add(i), r.send_ms, r.size);
                    for &(a, k) in &r.frags {
                        if let Some(p) = self.flows[ep].pkts.get_mut(&a) {
                            if let Some(f) = p.acked.get_mut(k as usize) {
                                *f = true;
                            }
                        }
                    }
                }
            }
            let recs = &e.book.recs;
            e.tfrc.consume(|a| recs.get(&a).map(|r| r.send_ms), e.hc.as_ref().unwrap().rtt_s());
        }
        let fa = e.book.abs(fbase);
        if fa > e.book.base_abs && fa <= e.book.next_abs {
            e.book.base_abs = fa;
            e.last_ack_base.0 = fbase;
            e.view.tx_frame_base = fbase;
        }
        self.flows[ep].on_ack_base(pbase);
        let f = &self.flows[ep];
        if f.abs(pbase) == f.base_abs && pbase <= ID_MASK {
            self.eps[ep].last_ack_base.1 = pbase;
            self.eps[ep].view.tx_packet_base = pbase;
        }
    }

    /// Conflicting copies of fragments the receiver already holds, added to genuine frames in transit.
    fn mitm(&mut self, ep: usize, fr: &Fr) -> Option<Vec<u8>> {
        let Fr::Data { id, nonce, dgs } = fr else { return None };
        let ppm = self.mitm_ppm;
        let e = &mut self.eps[ep];
        // A frame behind the receive window (late or repeated) is ignored as a whole.
        let in_window = id.wrapping_sub(e.mitm_base) < e.view.win;
        let mut out = dgs.clone();
        if e.hostile_rng.chance(ppm) && !e.mitm.is_empty() {
            let n = e.mitm.len() as u64;
            let k = e.hostile_rng.below(n) as usize;
            let orig = e.mitm.values().nth(k).unwrap().clone();
            let mut c = orig.clone();
            match e.hostile_rng.below(7) {
                0 => {
                    c.last = orig.last.wrapping_add(1);
                    c.frag = c.last;
                    c.data = vec![0xEE; 10];
                }
                1 => {
                    c.last = orig.last.saturating_sub(1);
                    c.frag = c.last;
                    c.data = vec![0xEE; 10];
                }
                2 => {
                    c.ch = (orig.ch + 1) & 63;
                    c.frag = orig.last;
                    c.data = vec![0xEE; 33];
                }
                3 => {
                    c.wlead = orig.wlead.wrapping_add(1);
                    c.frag = orig.last;
                    c.data = vec![0xEE; 5];
                    if c.clead != 0 && c.clead < c.wlead {
                        c.wlead = 0;
                        c.clead = 0;
                        if orig.wlead == 0 {
                            return None;
                        }
                    }
                }
                4 => {
                    c.clead = if orig.clead == 0 && orig.wlead != 0 { orig.wlead } else { orig.clead.wrapping_add(1) };
                    if c.wlead == 0 || c.clead < c.wlead {
                        return None;
                    }
                    c.frag = orig.last;
                    c.data = vec![0xEE; 7];
                }
                5 => {
                    // exact repetition
                }
                _ => {
                    c.last = 0;
                    c.frag = 0;
                    c.data = vec![0xEE; 20];
                }
            }
            self.ctx.stats.bump("fault:conflicting_fragment");
            let at = e.hostile_rng.below(out.len() as u64 + 1) as usize;
            out.insert(at, c);
        }
        // Remember fragments of multi-fragment packets the receiver accepts with this frame.
        if in_window {
            for d in dgs {
                if d.last > 0 {
                    e.mitm.entry(d.id).or_insert_with(|| d.clone());
                }
            }
            while e.mitm.len() > 6 {
                e.mitm.pop_first();
            }
        }
        Some(Fr::Data { id: *id, nonce: *nonce, dgs: out }.encode())
    }

    /// C15: hand over an acknowledgement which must have no effect.
    fn inject_ack(&mut self, ep: usize, kind: i64, seed: u64) {
        let mut r = Rng::stream(self.plan.seed ^ seed, 0xACC);
        let e = &mut self.eps[ep];
        let (fb, pb) = e.last_ack_base;
        let next = e.book.next_abs;
        let wire = |a: u64| (a as u32).wrapping_add(e.book.first);
        let fr = match kind {
            // Wrong nonce parity over frames which were really sent.
            0 | 1 => {
                if next == 0 {
                    return;
                }
                let back = 1 + r.below(next.min(64));
                let start = next - back;
                let n = 1 + r.below(back.min(32));
                let bits = if kind == 0 { 1u32 << (n - 1) | 1 } else { (r.u64() as u32 | 1) & (((1u64 << n) - 1) as u32) | 1 };
                let bits = if n == 1 { 1 } else { bits };
                let mut parity = false;
                for i in 0..32 {
                    if bits >> i & 1 == 1 {
                        match e.book.recs.get(&(start + i as u64)) {
                            Some(x) => parity ^= x.nonce,
                            None => return,
                        }
                    }
                }
                Fr::Ack { fbase: fb, pbase: pb, groups: vec![Grp { base: wire(start), bits, nonce: !parity }] }
            }
            // Frames never sent.
            2 => {
                let base = next + r.below(100);
                let bits = r.u64() as u32 | 1;
                Fr::Ack { fbase: fb, pbase: pb, groups: vec![Grp { base: wire(base), bits, nonce: r.one_in(2) }] }
            }
            // A range whose newest frame was not sent yet, with the parity of the known part.
            3 => {
                if next == 0 {
                    return;
                }
                let start = next - 1 - r.below(next.min(20));
                let known = (next - start) as u32;
                if known >= 31 {
                    return;
                }
                let bits = ((1u64 << (known + 1)) - 1) as u32;
                let mut parity = false;
                for i in 0..known as u64 {
                    match e.book.recs.get(&(start + i)) {
                        Some(x) => parity ^= x.nonce,
                        None => return,
                    }
                }
                Fr::Ack { fbase: fb, pbase: pb, groups: vec![Grp { base: wire(start), bits, nonce: parity }] }
            }
            // A copy of an acknowledgement which was processed before.
            4 | 5 => {
                if e.genuine_acks.is_empty() {
                    return;
                }
                let k = if kind == 4 { e.genuine_acks.len() as u64 - 1 } else { r.below(e.genuine_acks.len() as u64) };
                let raw = e.genuine_acks[k as usize].clone();
                match Fr::decode(&raw) {
                    Some(Fr::Ack { fbase, pbase, groups }) => {
                        if groups.is_empty() {
                            return;
                        }
                        // All its groups must have had their effect (or have been without effect for good).
                        for g in &groups {
                            let (certain, parity, known) = e.book.judge(g);
                            if known && parity && !certain {
                                return;
                            }
                        }
                        if r.one_in(2) {
                            Fr::Ack { fbase: fb, pbase: pb, groups }
                        } else {
                            Fr::Ack { fbase, pbase, groups }
                        }
                    }
                    _ => return,
                }
            }
            // Very old frames with random parity.
            _ => {
                if next < 9000 {
                    return;
                }
                let base = r.below(next - 8500);
                Fr::Ack { fbase: fb, pbase: pb, groups: vec![Grp { base: wire(base), bits: 1, nonce: r.one_in(2) }] }
            }
        };
        let b = fr.encode();
        self.injected += 1;
        self.ctx.stats.bump(match kind {
            0 | 1 => "fault:ack_wrong_nonce",
            2 | 3 => "fault:ack_unknown_frame",
            _ => "fault:ack_replay",
        });
        self.env.cur.set(ep);
        let hc = self.eps[ep].hc.as_mut().unwrap();
        lib("handle_ack", || {
            if let Some(Frame::AckFrame(f)) = Frame::read(&b) {
                hc.handle_ack_frame(f);
            }
        });
    }
}

pub fn brief(f: Option<&Fr>, len: usize) -> String {
    match f {
        None => format!("undecodable frame ({len} bytes)"),
        Some(Fr::Data { id, nonce, dgs }) => {
            let d: Vec<String> = dgs
                .iter()
                .map(|d| format!("{}:{}/{} ch{} w{} c{} {}B", d.id, d.frag, d.last, d.ch, d.wlead, d.clead, d.data.len()))
                .collect();
            format!("Data {id} nonce {nonce} [{}] ({len} bytes)", d.join(", "))
        }
        Some(x) => {
            let mut s = format!("{x:?}");
            if s.len() > 220 {
                let mut n = 220;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
            }
            s
        }
    }
}

//! Per-run context: selected property, trace hash, first violation, and the wrapper around every library call.

use crate::alloc::{scope, TAG_LIB};
use crate::plan::{Fate, Plan};
use crate::rng::{mix2, Rng};
use crate::stats::{Stats, Violation};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU64, Ordering};

pub const MAX_WORKERS: usize = 64;

pub struct WorkerSlot {
    /// Odd while inside a library call.
    pub seq: AtomicU64,
    pub run: AtomicU64,
    pub cpu_clock: AtomicU64,
}

#[allow(clippy::declare_interior_mutable_const)]
const SLOT: WorkerSlot =
    WorkerSlot { seq: AtomicU64::new(0), run: AtomicU64::new(u64::MAX), cpu_clock: AtomicU64::new(u64::MAX) };
pub static SLOTS: [WorkerSlot; MAX_WORKERS] = [SLOT; MAX_WORKERS];

thread_local! {
    pub static WORKER_ID: Cell<usize> = const { Cell::new(0) };
    static IN_LIB: Cell<Option<&'static str>> = const { Cell::new(None) };
    pub static LAST_PANIC: RefCell<Option<PanicInfo>> = const { RefCell::new(None) };
}

#[derive(Clone, Debug)]
pub struct PanicInfo {
    pub in_lib: Option<&'static str>,
    pub at: String,
    pub msg: String,
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _h = scope(crate::alloc::TAG_HARNESS);
        let in_lib = IN_LIB.with(|l| l.get());
        let at = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit_once("/src/").map_or(f, |(_, b)| b);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        if in_lib.is_none() {
            eprintln!("harness panic at {at}: {msg}");
        }
        LAST_PANIC.with(|p| {
            let mut p = p.borrow_mut();
            if p.is_none() {
                *p = Some(PanicInfo { in_lib, at, msg });
            }
        });
    }));
}

pub fn reset_lib_state() {
    IN_LIB.with(|l| l.set(None));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let s = &SLOTS[WORKER_ID.with(|w| w.get())].seq;
    let v = s.load(Ordering::Relaxed);
    if v & 1 == 1 {
        s.store(v + 1, Ordering::Relaxed);
    }
}

/// Run one call into the library: memory is attributed to it, a panic is attributed to it, and the watchdog times it.
pub fn lib<R>(what: &'static str, f: impl FnOnce() -> R) -> R {
    lib_tag(what, TAG_LIB, f)
}

pub fn lib_tag<R>(what: &'static str, tag: usize, f: impl FnOnce() -> R) -> R {
    let slot = &SLOTS[WORKER_ID.with(|w| w.get())].seq;
    let v = slot.load(Ordering::Relaxed);
    slot.store(v | 1, Ordering::Relaxed);
    IN_LIB.with(|l| l.set(Some(what)));
    let r = {
        let _s = scope(tag);
        f()
    };
    IN_LIB.with(|l| l.set(None));
    slot.store((v | 1) + 1, Ordering::Relaxed);
    r
}

pub struct Ctx<'a> {
    pub prop: u8,
    pub stats: &'a mut Stats,
    pub trace: u64,
    pub now: u64,
    pub events: u64,
    pub violation: Option<Violation>,
    pub nontrivial: bool,
    pub verbose: bool,
    pub log: Vec<String>,
    pub fates: BTreeMap<(u32, u32), Fate>,
}

impl<'a> Ctx<'a> {
    pub fn new(prop: u8, stats: &'a mut Stats) -> Self {
        Ctx {
            prop,
            stats,
            trace: 0,
            now: 0,
            events: 0,
            violation: None,
            nontrivial: false,
            verbose: false,
            log: Vec::new(),
            fates: BTreeMap::new(),
        }
    }

    pub fn is(&self, p: u8) -> bool {
        self.prop == p
    }

    pub fn any(&self, p: &[u8]) -> bool {
        p.contains(&self.prop)
    }

    pub fn tr(&mut self, v: u64) {
        self.trace = mix2(self.trace, v);
    }

    pub fn tr_bytes(&mut self, d: &[u8]) {
        let mut h = self.trace ^ d.len() as u64;
        for c in d.chunks(8) {
            let mut b = [0u8; 8];
            b[..c.len()].copy_from_slice(c);
            h = (h ^ u64::from_le_bytes(b)).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29);
        }
        self.trace = h;
    }

    pub fn fail(&mut self, prop: u8, class: &str, msg: impl FnOnce() -> String) {
        if prop == self.prop {
            if self.violation.is_none() {
                let m = msg();
                if self.verbose {
                    self.log.push(format!("[{}us] VIOLATION {class}: {m}", self.now));
                }
                self.violation = Some(Violation { prop, class: class.into(), msg: m, t: self.now });
            }
        } else {
            self.stats.bump("info:other_property_violations_seen");
        }
    }

    pub fn failed(&self) -> bool {
        self.violation.is_some()
    }

    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let s = f();
            self.log.push(format!("[{}us] {s}", self.now));
        }
    }
}

/// Conditions of one direction of a link (or of one client-server path).
#[derive(Clone)]
pub struct NetCond {
    pub lat: u64,
    pub jit: u64,
    pub loss: i64,
    pub dup: i64,
    pub corrupt: i64,
    /// Kinds of frame the random faults apply to.
    pub mask: i64,
    pub fifo: bool,
    pub cut_until: u64,
    pub cut_mask: i64,
    pub burst: u32,
    pub last_arrival: u64,
    pub sent: u32,
    pub rng: Rng,
}

/// 1 data, 2 sync, 4 ack, 8 SYN, 16 SYN-ACK, 32 handshake ACK, 64 handshake error, 128 disconnect, 256 disconnect ACK.
pub fn frame_kind(b: &[u8]) -> i64 {
    match b.first() {
        Some(10) => 1,
        Some(11) => 2,
        Some(12) => 4,
        Some(1) => 16,
        Some(2) => 32,
        Some(3) => 64,
        Some(4) => 128,
        Some(5) => 256,
        _ => 8,
    }
}

pub const ALL_KINDS: i64 = 511;
pub const HANDSHAKE: i64 = 8 | 16 | 32 | 64;

impl NetCond {
    pub fn new(seed: u64, link: u32) -> Self {
        NetCond {
            lat: 20_000,
            jit: 0,
            loss: 0,
            dup: 0,
            corrupt: 0,
            mask: ALL_KINDS,
            fifo: true,
            cut_until: 0,
            cut_mask: ALL_KINDS,
            burst: 0,
            last_arrival: 0,
            sent: 0,
            rng: Rng::stream(seed, 0x11E7_0000 + link as u64),
        }
    }

    /// args: lat, jit, loss, dup, corrupt, mask, fifo
    pub fn apply(&mut self, a: &[i64]) {
        let g = |i: usize, d: i64| a.get(i).copied().unwrap_or(d);
        self.lat = g(0, self.lat as i64).max(0) as u64;
        self.jit = g(1, 0).max(0) as u64;
        self.loss = g(2, 0);
        self.dup = g(3, 0);
        self.corrupt = g(4, 0);
        self.mask = g(5, ALL_KINDS);
        self.fifo = g(6, 1) != 0;
    }

    /// Decide the fate of the next frame; returns arrival copies as (time, bytes).
    pub fn transmit(&mut self, ctx: &mut Ctx, plan: &Plan, link: u32, now: u64, data: &[u8]) -> Vec<(u64, Vec<u8>)> {
        let n = self.sent;
        self.sent += 1;
        let fate = match &plan.fates {
            Some(t) => t.get(&(link, n)).cloned().unwrap_or_default(),
            None => self.draw(now, data),
        };
        if !fate.is_plain() {
            ctx.fates.insert((link, n), fate.clone());
        }
        ctx.stats.bump("frames");
        if fate.drop {
            ctx.stats.bump(match frame_kind(data) {
                1 => "fault:drop_data",
                2 => "fault:drop_sync",
                4 => "fault:drop_ack",
                8 => "fault:drop_syn",
                16 => "fault:drop_synack",
                32 => "fault:drop_hsack",
                64 => "fault:drop_hserr",
                128 => "fault:drop_disconnect",
                _ => "fault:drop_disconnect_ack",
            });
            if ctx.verbose {
                ctx.note(|| format!("link {link} frame {n} dropped"));
            }
            return vec![];
        }
        let mut out = Vec::with_capacity(1 + fate.dups.len());
        let mut t = now + fate.delay.unwrap_or(self.lat);
        if self.fifo && fate.delay.is_none() {
            t = t.max(self.last_arrival);
        }
        if t < self.last_arrival {
            ctx.stats.bump("fault:reorder");
        }
        if fate.delay.is_some() {
            ctx.stats.bump("fault:delay");
        }
        self.last_arrival = self.last_arrival.max(t);
        let mut bytes = data.to_vec();
        if !fate.flips.is_empty() {
            ctx.stats.bump("fault:corrupt");
            for &f in &fate.flips {
                let f = f as usize % (bytes.len() * 8);
                bytes[f / 8] ^= 1 << (f % 8);
            }
        }
        for d in &fate.dups {
            ctx.stats.bump("fault:duplicate");
            out.push((now + d, data.to_vec()));
        }
        out.push((t, bytes));
        out
    }

    fn draw(&mut self, now: u64, data: &[u8]) -> Fate {
        // A constant number of draws per frame keeps the stream aligned.
        let r: [u64; 6] = std::array::from_fn(|_| self.rng.u64());
        let ppm = |v: u64| ((v as u128 * 1_000_000) >> 64) as i64;
        let below = |v: u64, n: u64| ((v as u128 * n as u128) >> 64) as u64;
        let kind = frame_kind(data);
        let mut f = Fate::default();
        if now < self.cut_until && kind & self.cut_mask != 0 {
            f.drop = true;
            return f;
        }
        if self.burst > 0 && kind == 1 {
            self.burst -= 1;
            f.drop = true;
            return f;
        }
        if self.jit > 0 && !self.fifo {
            f.delay = Some(self.lat + below(r[0], self.jit + 1));
        } else if self.jit > 0 {
            // in-order jitter
            let t = (now + self.lat + below(r[0], self.jit + 1)).max(self.last_arrival);
            f.delay = Some(t - now);
        }
        if kind & self.mask != 0 {
            if ppm(r[1]) < self.loss {
                f.drop = true;
                f.delay = None;
                return f;
            }
            if ppm(r[2]) < self.dup {
                f.dups.push(self.lat + below(r[3], self.jit.max(self.lat) * 2 + 1));
                if r[3] & 7 == 0 {
                    f.dups.push(self.lat + below(r[3].rotate_left(17), self.jit.max(self.lat) * 20 + 1));
                }
            }
            if ppm(r[4]) < self.corrupt {
                let bits = data.len() as u64 * 8;
                let mut x = r[5];
                for _ in 0..1 + (r[4] & 3) {
                    let b = below(x, bits) as u32;
                    if !f.flips.contains(&b) {
                        f.flips.push(b);
                    }
                    x = crate::rng::mix(x);
                }
            }
        }
        f
    }
}

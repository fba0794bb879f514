//! Reference model of one direction of a connection: what was submitted, what may be delivered, which packet ids and
//! fragments appeared on the wire, what the peer acknowledged.

use crate::ctx::Ctx;
use crate::rng::{mix2, Rng};
use crate::wire::{Dg, FRAG, ID_MASK};
use std::collections::{BTreeMap, BTreeSet};

pub const TS: u8 = 0;
pub const UN: u8 = 1;
pub const PE: u8 = 2;
pub const RE: u8 = 3;
pub const HDR: usize = 8;
/// The channel of packets too small to carry an index, which are all Reliable.
pub const SMALL: u8 = 63;

pub fn mode_of(m: u8) -> uflow::SendMode {
    match m {
        TS => uflow::SendMode::TimeSensitive,
        UN => uflow::SendMode::Unreliable,
        PE => uflow::SendMode::Persistent,
        _ => uflow::SendMode::Reliable,
    }
}

pub struct Sub {
    pub ch: u8,
    pub mode: u8,
    pub size: usize,
    pub t: u64,
    /// Number of steps the sender had performed when this was submitted.
    pub step: u64,
    pub delivered: bool,
    pub wire: Option<u64>,
    pub stale: bool,
}

pub fn payload(seed: u64, dir: u8, idx: u32, ch: u8, mode: u8, size: usize) -> Vec<u8> {
    let key = mix2(seed, (dir as u64) << 32 | idx as u64);
    let mut v = Vec::with_capacity(size + 8);
    v.push(mode << 6 | ch);
    v.extend_from_slice(&idx.to_le_bytes());
    v.push(dir);
    v.extend_from_slice(&(key as u16).to_le_bytes());
    if size < HDR {
        // Too small to carry an index: content is matched by position.
        v = (key >> 8).to_le_bytes()[..].to_vec();
    } else {
        let mut r = Rng::new(key);
        while v.len() < size {
            v.extend_from_slice(&r.u64().to_le_bytes());
        }
    }
    v.truncate(size);
    v
}

pub fn alloc_size(size: usize) -> usize {
    if size > FRAG {
        (size + FRAG - 1) / FRAG * FRAG
    } else {
        size
    }
}

/// State of one packet id on the wire.
pub struct WirePkt {
    pub sub: usize,
    pub last: u16,
    pub wlead: u16,
    pub clead: u16,
    /// per fragment: number of transmissions
    pub tx: Vec<u32>,
    /// per fragment: certainly acknowledged (time)
    pub acked: Vec<bool>,
    /// an acknowledgement covering it arrived, which the sender may have accepted
    pub maybe: Vec<bool>,
    /// reached the receiver
    pub rx: Vec<bool>,
    pub last_tx_t: Vec<u64>,
}

pub struct Flow {
    pub seed: u64,
    pub dir: u8,
    pub subs: Vec<Sub>,
    last_delivered: [i64; 64],
    /// packets too small to carry a label, all on channel SMALL
    small: Vec<usize>,
    /// undelivered Reliable packets per channel
    und_rel: BTreeMap<u8, BTreeSet<usize>>,
    pub rel_left: usize,
    pub delivered: u64,
    pub delivered_bytes: u64,
    /// Position up to which the global order has been consumed (ideal-network runs).
    global_last: i64,
    pub ideal: bool,
    // wire mapping
    pub map_ok: bool,
    next_sub: usize,
    first_id: u32,
    pub next_abs: u64,
    pub base_abs: u64,
    pub pkts: BTreeMap<u64, WirePkt>,
    pub outstanding_alloc: usize,
    pub accepted_bytes: u64,
    pub acked_bytes: u64,
    pub stale_bytes: u64,
    /// TimeSensitive, not on the wire, not known discarded
    pub ts_open: BTreeSet<usize>,
    pub max_delivered_lag: u64,
}

pub enum Mapped {
    New,
    Known,
    No,
}

impl Flow {
    pub fn new(seed: u64, dir: u8, first_id: u32) -> Self {
        Flow {
            seed,
            dir,
            subs: Vec::new(),
            last_delivered: [-1; 64],
            small: Vec::new(),
            und_rel: BTreeMap::new(),
            rel_left: 0,
            delivered: 0,
            delivered_bytes: 0,
            global_last: -1,
            ideal: false,
            map_ok: true,
            next_sub: 0,
            first_id: first_id & ID_MASK,
            next_abs: 0,
            base_abs: 0,
            pkts: BTreeMap::new(),
            outstanding_alloc: 0,
            accepted_bytes: 0,
            acked_bytes: 0,
            stale_bytes: 0,
            ts_open: BTreeSet::new(),
            max_delivered_lag: 0,
        }
    }

    pub fn submit(&mut self, now: u64, step: u64, ch: u8, mode: u8, size: usize) -> Vec<u8> {
        let idx = self.subs.len();
        let p = payload(self.seed, self.dir, idx as u32, ch, mode, size);
        if size < HDR {
            self.small.push(idx);
        }
        self.subs.push(Sub { ch, mode, size, t: now, step, delivered: false, wire: None, stale: false });
        if mode == RE {
            self.und_rel.entry(ch).or_default().insert(idx);
            self.rel_left += 1;
        }
        if mode == TS {
            self.ts_open.insert(idx);
        }
        self.accepted_bytes += size as u64;
        p
    }

    pub fn regen(&self, idx: usize) -> Vec<u8> {
        let s = &self.subs[idx];
        payload(self.seed, self.dir, idx as u32, s.ch, s.mode, s.size)
    }

    /// A packet reached the receiving application. Returns its index.
    pub fn deliver(&mut self, ctx: &mut Ctx, data: &[u8]) -> Option<usize> {
        ctx.stats.bump("deliveries");
        let idx;
        if data.len() >= HDR {
            idx = u32::from_le_bytes([data[1], data[2], data[3], data[4]]) as usize;
            if idx >= self.subs.len() || data[5] != self.dir {
                ctx.fail(1, "content", || format!("delivered packet of {} bytes matches nothing submitted", data.len()));
                ctx.fail(4, "content", || format!("delivered packet of {} bytes matches nothing submitted", data.len()));
                return None;
            }
            if data != &self.regen(idx)[..] {
                let (a, b) = (data.len(), self.subs[idx].size);
                for p in [1, 4, 5] {
                    ctx.fail(p, "content", || format!("packet {idx} delivered with altered contents ({a} bytes, submitted {b})"));
                }
                return None;
            }
        } else {
            // Position-matched: the first later submission of this channel class with this content.
            let Some(i) = self.match_small(data) else {
                for p in [1, 4, 5] {
                    ctx.fail(p, "content", || format!("delivered {}-byte packet matches no remaining submission", data.len()));
                }
                return None;
            };
            idx = i;
        }
        let (ch, mode, t) = (self.subs[idx].ch, self.subs[idx].mode, self.subs[idx].t);
        if self.subs[idx].delivered {
            for p in [1, 2, 5] {
                ctx.fail(p, "duplicate", || format!("packet {idx} (channel {ch}, mode {mode}) delivered twice"));
            }
        } else if (idx as i64) < self.last_delivered[ch as usize] {
            let l = self.last_delivered[ch as usize];
            for p in [1, 5] {
                ctx.fail(p, "order", || format!("packet {idx} delivered on channel {ch} after packet {l}"));
            }
        }
        if let Some(set) = self.und_rel.get_mut(&ch) {
            if let Some(&first) = set.iter().next() {
                if first < idx {
                    ctx.fail(2, "skip", || {
                        format!("packet {idx} (mode {mode}) delivered on channel {ch} before earlier Reliable packet {first}")
                    });
                }
            }
            if set.remove(&idx) {
                self.rel_left -= 1;
            }
        }
        if self.ideal {
            // Everything between must have been TimeSensitive.
            let g = self.global_last;
            if (idx as i64) <= g {
                ctx.fail(5, "order", || format!("packet {idx} delivered after packet {g}"));
            } else {
                for i in (g + 1) as usize..idx {
                    if self.subs[i].mode != TS {
                        ctx.fail(5, "skip", || {
                            format!("packet {idx} delivered while earlier packet {i} (mode {}) was not", self.subs[i].mode)
                        });
                        break;
                    }
                }
                self.global_last = idx as i64;
            }
        }
        self.last_delivered[ch as usize] = self.last_delivered[ch as usize].max(idx as i64);
        self.subs[idx].delivered = true;
        self.delivered += 1;
        self.delivered_bytes += data.len() as u64;
        self.max_delivered_lag = self.max_delivered_lag.max(ctx.now - t);
        Some(idx)
    }

    fn match_small(&self, data: &[u8]) -> Option<usize> {
        // Small packets are confined to a channel which carries nothing else, in Reliable mode; earliest match.
        let from = self.small.partition_point(|&i| i as i64 <= self.last_delivered[SMALL as usize]);
        self.small[from..].iter().copied().find(|&i| {
            let s = &self.subs[i];
            s.size == data.len() && !s.delivered && self.regen(i) == data
        })
    }

    pub fn abs(&self, id: u32) -> u64 {
        // nearest absolute id to next_abs
        let cur = self.next_abs + self.first_id as u64;
        let d = (id.wrapping_sub(cur as u32)) & ID_MASK;
        let a = if d < 0x80000 { cur + d as u64 } else { (cur + d as u64).wrapping_sub(0x100000) };
        a.wrapping_sub(self.first_id as u64)
    }

    /// A datagram left the sender.
    pub fn on_datagram(&mut self, ctx: &mut Ctx, dg: &Dg) -> (Mapped, u64) {
        let a = self.abs(dg.id);
        if !self.map_ok {
            return (Mapped::No, a);
        }
        if a < self.next_abs {
            return (if self.pkts.contains_key(&a) { Mapped::Known } else { Mapped::No }, a);
        }
        if a != self.next_abs {
            self.desync(ctx, a);
            return (Mapped::No, a);
        }
        // Next submission in order, skipping TimeSensitive ones only.
        let mut i = self.next_sub;
        loop {
            if i >= self.subs.len() {
                self.desync(ctx, a);
                return (Mapped::No, a);
            }
            let s = &self.subs[i];
            let nfrag = if s.size == 0 { 1 } else { (s.size + FRAG - 1) / FRAG };
            let ok = s.ch == dg.ch && nfrag == dg.last as usize + 1 && (dg.frag as usize) < nfrag && {
                let lo = dg.frag as usize * FRAG;
                let hi = (lo + FRAG).min(s.size);
                dg.data.len() == hi - lo && self.regen(i)[lo..hi] == dg.data[..]
            };
            if ok {
                break;
            }
            if s.mode != TS {
                self.desync(ctx, a);
                return (Mapped::No, a);
            }
            i += 1;
        }
        for k in self.next_sub..i {
            self.subs[k].stale = true;
            self.stale_bytes += self.subs[k].size as u64;
            self.ts_open.remove(&k);
            ctx.stats.bump("probe:stale_ts_dropped");
        }
        self.next_sub = i + 1;
        self.subs[i].wire = Some(a);
        self.ts_open.remove(&i);
        let n = dg.last as usize + 1;
        self.pkts.insert(
            a,
            WirePkt {
                sub: i,
                last: dg.last,
                wlead: dg.wlead,
                clead: dg.clead,
                tx: vec![0; n],
                acked: vec![false; n],
                maybe: vec![false; n],
                rx: vec![false; n],
                last_tx_t: vec![0; n],
            },
        );
        self.outstanding_alloc += alloc_size(self.subs[i].size);
        self.next_abs = a + 1;
        (Mapped::New, a)
    }

    fn desync(&mut self, ctx: &mut Ctx, a: u64) {
        self.map_ok = false;
        ctx.stats.bump("info:wire_mapping_lost");
        ctx.note(|| format!("wire mapping lost at packet id {a}"));
    }

    /// The sender processed a packet window base reported by its peer.
    pub fn on_ack_base(&mut self, pbase: u32) {
        if pbase > ID_MASK {
            return;
        }
        let a = self.abs(pbase);
        if a > self.base_abs && a <= self.next_abs {
            while self.base_abs < a {
                if let Some(p) = self.pkts.remove(&self.base_abs) {
                    let s = &self.subs[p.sub];
                    self.outstanding_alloc -= alloc_size(s.size);
                    self.acked_bytes += s.size as u64;
                }
                self.base_abs += 1;
            }
        }
    }

    /// Bounds of send_buffer_size(): (low, high). `step` is the number of steps the sender has performed.
    pub fn size_bounds(&self, step: u64) -> (u64, u64) {
        let hi = self.accepted_bytes - self.acked_bytes - self.stale_bytes;
        let stale: u64 =
            self.ts_open.iter().filter(|&&i| self.subs[i].step != step).map(|&i| self.subs[i].size as u64).sum();
        (hi - stale, hi)
    }

    /// Index of a packet which an ideal network must have delivered but did not.
    pub fn first_missing(&self) -> Option<usize> {
        self.subs.iter().position(|s| !s.delivered && s.mode != TS)
    }

    pub fn first_missing_reliable(&self) -> Option<usize> {
        self.und_rel.values().filter_map(|s| s.iter().next().copied()).min()
    }
}

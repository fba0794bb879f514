//! A receiving half-connection fed by a synthetic sender: fragments of all packets of the transfer window in
//! arbitrary order, repetition and interleaving, with conflicting fragments in between.
//!
//! The sender keeps to what a uflow sender may have in flight (transfer window, allocation limit, parent leads), but
//! not to the order in which one would transmit.

use crate::alloc::{self, TAG_LIB, TAG_RX};
use crate::ctx::{lib, lib_tag, Ctx};
use crate::env::Env;
use crate::flow::{alloc_size, Flow, HDR, PE, RE};
use crate::plan::Plan;
use crate::rng::{mix2, Rng};
use crate::watch::RateWatch;
use crate::wire::{Dg, Fr, FRAG, ID_MASK, MAX_FRAME};
use std::collections::{BTreeMap, VecDeque};
use std::rc::Rc;
use uflow::verif::{Config, Frame, FrameSink, HalfConnection, PacketSink, Serialize};

#[derive(Default)]
struct Out {
    frames: Vec<Vec<u8>>,
    packets: Vec<Box<[u8]>>,
}

impl FrameSink for Out {
    fn send(&mut self, d: &[u8]) {
        let _h = alloc::scope(alloc::TAG_HARNESS);
        self.frames.push(d.to_vec());
    }
}

impl PacketSink for Out {
    fn send(&mut self, d: Box<[u8]>) {
        let _h = alloc::scope(alloc::TAG_HARNESS);
        self.packets.push(d);
    }
}

struct Pkt {
    sub: usize,
    mode: u8,
    ch: u8,
    wlead: u16,
    clead: u16,
    data: Vec<u8>,
    left: VecDeque<u16>,
    fed: Vec<u16>,
    nfrag: usize,
    alloc: usize,
    /// the receiver must have taken the first fragment (it cannot have moved past this packet)
    accepted: bool,
    /// ... and must deliver it
    due: bool,
}

impl Pkt {
    fn dg(&self, id: u32, f: u16) -> Dg {
        let lo = f as usize * FRAG;
        let hi = (lo + FRAG).min(self.data.len());
        Dg {
            id,
            ch: self.ch,
            wlead: self.wlead,
            clead: self.clead,
            frag: f,
            last: (self.nfrag - 1) as u16,
            data: self.data[lo..hi].to_vec(),
        }
    }
}

pub fn run(plan: &Plan, ctx: &mut Ctx) {
    let env = Env::new();
    let backend: Rc<dyn uflow::verif::Backend> = env.clone();
    uflow::verif::set_backend(Some(backend));
    env.add_node(plan.seed, 0, 0);
    let (live0, blocks0) = (alloc::live(TAG_LIB) + alloc::live(TAG_RX), alloc::blocks(TAG_LIB) + alloc::blocks(TAG_RX));
    drive(plan, ctx, &env);
    uflow::verif::set_backend(None);
    if ctx.is(19) {
        if let Some(f) = alloc::take_fault() {
            ctx.fail(19, "heap", || format!("allocator contract broken: {f:?}"));
        }
        let live = alloc::live(TAG_LIB) + alloc::live(TAG_RX) - live0;
        let blocks = alloc::blocks(TAG_LIB) + alloc::blocks(TAG_RX) - blocks0;
        if live != 0 || blocks != 0 {
            ctx.fail(19, "leak", || format!("{live} bytes in {blocks} blocks not returned after dropping the endpoint"));
        }
    }
}

fn drive(plan: &Plan, ctx: &mut Ctx, env: &Rc<Env>) {
    let g = |k: &str, d: i64| plan.get(k, d);
    let win = 1u64 << g("pw", 12);
    let al = g("al", 1_000_000) as usize;
    let al_ceil = (al + FRAG - 1) / FRAG * FRAG;
    let (fb, pb) = (g("fb", 0) as u32, g("pb", 0) as u32 & ID_MASK);
    let (order, dup, conf, lose) = (g("order", 0), g("dup", 0), g("conf", 0), g("lose", 0));
    let (recv, gap, maxdg, dupf) = (g("recv", 500_000), g("gap", 20_000) as u64, g("maxdg", 4) as u64, g("dupf", 0));
    let flight = g("flight", 16).max(1) as u64;
    // The ceiling of the receiver, whose acknowledgements count as well.
    let arate = g("arate", 10_000_000).clamp(1472, 10_000_000);
    let (fskip, fjump) = (g("fskip", 0), g("fjump", 0).clamp(0, 4000) as u32);
    let mut watch = RateWatch::new(arate as u64);
    let cfg = Config {
        tx_frame_base_id: 0,
        rx_frame_base_id: fb,
        tx_frame_window_size: 4096,
        rx_frame_window_size: 4096,
        tx_packet_base_id: 0,
        rx_packet_base_id: pb,
        tx_packet_window_size: 4096,
        rx_packet_window_size: win as u32,
        tx_bandwidth_limit: arate as u32,
        tx_alloc_limit: 1_000_000,
        rx_alloc_limit: al,
        keepalive_interval_ms: None,
    };
    let mut hc = lib("new", || HalfConnection::new(cfg));
    let mut r = Rng::stream(plan.seed, 0x5717);
    let mut flow = Flow::new(plan.seed, 0, pb);
    let sends = |k: &str| -> VecDeque<(u8, u8, usize)> {
        plan.ops
            .iter()
            .filter(|o| o.k == k && o.a.len() >= 3)
            .map(|o| ((o.a[0] & 63) as u8, (o.a[1] & 3) as u8, o.a[2].clamp(0, 30_000_000) as usize))
            .collect()
    };
    let mut todo = sends("send");
    // Then, perhaps: so many packets, each in a frame of its own, of which none arrives; and more packets.  Since packet
    // ids have wrapped around by then, old frames now speak of packets in the receiver's window.
    let mut lost = g("lost", 0).clamp(0, 4 << 20) as u64;
    let stale = g("stale", 0);
    let mut kept: VecDeque<Vec<u8>> = VecDeque::new();
    // Syncs which may come again, late.
    let mut syncs: VecDeque<(u64, Vec<u8>)> = VecDeque::new();
    let osync = g("osync", 0);
    let mut wrapped = false;
    let mut pk: BTreeMap<u64, Pkt> = BTreeMap::new();
    // Everything below is in absolute ids (the first packet is 0).
    let (mut base, mut next) = (0u64, 0u64);
    let mut wparent: Option<u64> = None;
    let mut cparent: [Option<u64>; 64] = [None; 64];
    let mut out = Out::default();
    let mut frame = fb;
    let mut now = 0u64;
    let mut old: VecDeque<(u64, Dg)> = VecDeque::new();
    let mut max_full: Option<u64> = None;
    let (mut idle, mut extra) = (0u32, 0u32);
    let wire = |a: u64| (pb as u64 + a) as u32 & ID_MASK;
    let mut due_left = 0u64;
    loop {
        // Admit packets.
        let mut held: usize = pk.range(base..).map(|(_, p)| p.alloc).sum();
        while let Some(&(ch, mode, size)) = todo.front() {
            let a = alloc_size(size);
            if next - base >= win || held + a > al_ceil || pk.range(base..).filter(|(_, p)| !p.left.is_empty()).count() as u64 >= flight {
                break;
            }
            todo.pop_front();
            let (mode, ch) = if size < HDR { (RE, 63) } else { (mode, if ch == 63 { 62 } else { ch }) };
            let sub = flow.subs.len();
            let data = flow.submit(now, 0, ch, mode, size);
            let nfrag = size.div_ceil(FRAG).max(1);
            let mut left: Vec<u16> = (0..nfrag as u32).map(|f| f as u16).collect();
            match order {
                0 => {}
                1 => left.reverse(),
                2 => left.rotate_left(nfrag / 2),
                _ => {
                    for i in (1..left.len()).rev() {
                        left.swap(i, r.below(i as u64 + 1) as usize);
                    }
                }
            }
            let lead = |p: Option<u64>| p.filter(|p| *p >= base).map_or(0, |p| (next - p) as u16);
            let p = Pkt {
                sub,
                mode,
                ch,
                wlead: lead(wparent),
                clead: lead(cparent[ch as usize]),
                data,
                left: left.into(),
                fed: vec![],
                nfrag,
                alloc: a,
                accepted: false,
                due: false,
            };
            pk.insert(next, p);
            if mode == RE {
                wparent = Some(next);
                cparent[ch as usize] = Some(next);
            }
            next += 1;
            held += a;
        }
        if todo.is_empty() && base == next && !wrapped && g("lost", 0) > 0 {
            if lost == 0 {
                wrapped = true;
                todo = sends("send2");
                ctx.stats.bump("probe:synth_wrapped");
                continue;
            }
            old.clear();
            let n = lost.min(win);
            lost -= n;
            next += n;
            frame = frame.wrapping_add(n as u32);
            idle = 0;
        }
        if wrapped && r.chance(stale) && !kept.is_empty() {
            let b = &kept[r.below(kept.len() as u64) as usize];
            ctx.note(|| format!("-> stale {}", crate::link::brief(Fr::decode(b).as_ref(), b.len())));
            lib_tag("handle_data", TAG_RX, || {
                if let Some(Frame::DataFrame(f)) = Frame::read(b) {
                    hc.handle_data_frame(f);
                }
            });
            ctx.stats.bump("fault:stale_frame");
        }
        if r.chance(osync) && !syncs.is_empty() {
            let (a, b) = &syncs[r.below(syncs.len() as u64) as usize];
            if base < *a + 500_000 {
                ctx.note(|| format!("-> late {}", crate::link::brief(Fr::decode(b).as_ref(), b.len())));
                lib("handle_sync", || {
                    if let Some(Frame::SyncFrame(f)) = Frame::read(b) {
                        hc.handle_sync_frame(f);
                    }
                });
                ctx.stats.bump("fault:late_sync");
            }
        }
        // One frame.
        let mut dgs: Vec<Dg> = Vec::new();
        let n = 1 + r.below(maxdg);
        let mut len = 10;
        for _ in 0..n {
            let open: Vec<u64> = pk.range(base..).filter(|(_, p)| !p.left.is_empty()).map(|(k, _)| *k).collect();
            if open.is_empty() {
                extra += 1;
                if extra > 20 {
                    break;
                }
            } else {
                extra = 0;
            }
            let seen: Vec<u64> = pk.range(base..).filter(|(_, p)| p.accepted).map(|(k, _)| *k).collect();
            let what = r.below(1_000_000) as i64;
            if what < conf && !seen.is_empty() {
                // A fragment which contradicts what the receiver already knows of the packet.
                let k = seen[r.below(seen.len() as u64) as usize];
                let p = &pk[&k];
                let mut d = p.dg(wire(k), p.fed[r.below(p.fed.len() as u64) as usize]);
                if r.one_in(2) {
                    d.frag = r.below(p.nfrag as u64) as u16;
                }
                match r.below(7) {
                    0 => d.ch = (d.ch + 1 + r.below(63) as u8) & 63,
                    1 => d.wlead = d.wlead.wrapping_add(1 + r.below(20) as u16),
                    2 => d.clead = d.clead.wrapping_add(1 + r.below(20) as u16),
                    3 => d.last = d.last.wrapping_add(1 + r.below(3) as u16),
                    4 => d.last = d.last.wrapping_sub(1),
                    5 => (d.wlead, d.clead) = if d.wlead == 0 { (1, 1) } else { (0, 0) },
                    _ => d.last = r.below(600) as u16,
                }
                let q = &pk[&k];
                if (d.ch, d.wlead, d.clead, d.last as usize) == (q.ch, q.wlead, q.clead, q.nfrag - 1) {
                    continue;
                }
                if r.one_in(2) {
                    d.frag = d.last;
                }
                let size = if d.frag < d.last { FRAG } else { r.pick(&[0, 1, 100, FRAG - 1, FRAG, d.data.len()]) };
                let mut z = Rng::new(r.u64());
                d.data = (0..size).map(|_| z.u64() as u8).collect();
                if len + d.encoded_len() > MAX_FRAME {
                    continue;
                }
                len += d.encoded_len();
                dgs.push(d);
                ctx.stats.bump("fault:conflicting_fragment");
                continue;
            }
            if what < conf + dup && (!seen.is_empty() || !old.is_empty()) {
                let d = if !old.is_empty() && (seen.is_empty() || r.one_in(3)) {
                    old[r.below(old.len() as u64) as usize].1.clone()
                } else {
                    let k = seen[r.below(seen.len() as u64) as usize];
                    let p = &pk[&k];
                    p.dg(wire(k), p.fed[r.below(p.fed.len() as u64) as usize])
                };
                if len + d.encoded_len() > MAX_FRAME {
                    continue;
                }
                len += d.encoded_len();
                dgs.push(d);
                ctx.stats.bump("fault:repeated_fragment");
                continue;
            }
            if open.is_empty() {
                break;
            }
            let k = match g("pick", 0) {
                0 => open[r.below(open.len() as u64) as usize],
                1 => open[open.len() - 1],
                2 => open[0],
                _ => open[(r.below(open.len() as u64) * r.below(open.len() as u64) / open.len() as u64) as usize],
            };
            let p = pk.get_mut(&k).unwrap();
            let f = *p.left.front().unwrap();
            let d = p.dg(wire(k), f);
            if len + d.encoded_len() > MAX_FRAME {
                break;
            }
            p.left.pop_front();
            if p.mode < PE && r.chance(lose) {
                // Given up on: the rest of this packet is never sent.
                p.left.clear();
                ctx.stats.bump("fault:fragment_lost");
                continue;
            }
            len += d.encoded_len();
            if p.fed.is_empty() {
                p.accepted = p.mode == RE || max_full.map_or(true, |m| m < k);
            }
            p.fed.push(f);
            if p.fed.len() == p.nfrag {
                p.due = p.accepted && (p.mode == RE || max_full.map_or(true, |m| m < k));
                if p.due {
                    due_left += 1;
                }
                max_full = Some(max_full.map_or(k, |m| m.max(k)));
            }
            old.push_back((k, d.clone()));
            if old.len() > 40 {
                old.pop_front();
            }
            dgs.push(d);
        }
        if !dgs.is_empty() {
            idle = 0;
            ctx.stats.bump("frames");
            ctx.nontrivial = true;
            if r.chance(fskip) {
                // Frames which do not arrive, so that the acknowledgements come in many groups.
                frame = frame.wrapping_add(if fjump > 0 { fjump } else { r.range(1, 80) as u32 });
                ctx.stats.bump("fault:frames_skipped");
            }
            let f = Fr::Data { id: frame, nonce: r.one_in(2), dgs };
            frame = frame.wrapping_add(1);
            let b = f.encode();
            ctx.tr_bytes(&b);
            ctx.note(|| format!("-> {}", crate::link::brief(Some(&f), b.len())));
            if !wrapped && stale > 0 {
                kept.push_back(b.clone());
                if kept.len() > 200 {
                    kept.pop_front();
                }
            }
            let times = 1 + r.chance(dupf) as u32;
            for _ in 0..times {
                lib_tag("handle_data", TAG_RX, || {
                    if let Some(Frame::DataFrame(f)) = Frame::read(&b) {
                        hc.handle_data_frame(f);
                    }
                });
            }
        } else {
            idle += 1;
            // Nothing left to send in the window: a sender which resends nothing tells the receiver so.
            let all_rel_fed = pk.range(base..).all(|(_, p)| p.left.is_empty());
            if all_rel_fed && base < next {
                let b = Fr::Sync { frame: Some(frame), packet: Some(wire(next)) }.encode();
                if osync > 0 {
                    syncs.push_back((next, b.clone()));
                    if syncs.len() > 100 {
                        syncs.pop_front();
                    }
                }
                ctx.note(|| format!("-> sync {frame} {}", wire(next)));
                lib("handle_sync", || {
                    if let Some(Frame::SyncFrame(f)) = Frame::read(&b) {
                        hc.handle_sync_frame(f);
                    }
                });
                ctx.stats.bump("probe:synth_sync");
            }
        }
        now += 1 + r.below(gap.max(1)) + if idle > 0 { 200_000 } else { 0 };
        env.now_us.set(now);
        ctx.now = now;
        ctx.events += 1;
        if r.chance(recv) || idle > 0 {
            lib("step", || hc.step());
            lib("receive", || hc.receive(&mut out));
            for d in std::mem::take(&mut out.packets) {
                ctx.tr(mix2(d.len() as u64, 0xDE11));
                let i = flow.deliver(ctx, &d);
                ctx.note(|| format!("delivered packet {i:?} ({} bytes)", d.len()));
                let _s = alloc::scope(TAG_LIB);
                drop(d);
            }
            lib("flush", || hc.flush(&mut out));
            let rtt = hc.rtt_s().unwrap_or(0.0);
            ctx.stats.max("max:synth_ack_frames_per_flush", out.frames.len() as u64);
            ctx.stats.max("max:synth_ack_bytes_per_flush", out.frames.iter().map(|f| f.len() as u64).sum());
            for b in std::mem::take(&mut out.frames) {
                if let Some(m) = watch.push(now * 1000, b.len(), rtt) {
                    ctx.fail(13, "rate", || m);
                }
                if b.len() > MAX_FRAME {
                    ctx.fail(4, "framesize", || format!("emitted a frame of {} bytes", b.len()));
                }
                ctx.note(|| format!("<- {}", crate::link::brief(Fr::decode(&b).as_ref(), b.len())));
                match Fr::decode(&b) {
                    Some(Fr::Ack { pbase, .. }) => {
                        let lead = pbase.wrapping_sub(wire(base)) & ID_MASK;
                        if pbase <= ID_MASK && (lead as u64) <= next - base {
                            base += lead as u64;
                        }
                    }
                    Some(_) => {}
                    None => ctx.fail(4, "framesize", || "emitted an undecodable frame".into()),
                }
            }
            while let Some((&k, p)) = pk.first_key_value() {
                if k >= base {
                    break;
                }
                if p.due && !flow.subs[p.sub].delivered {
                    let (s, m, n, c) = (p.sub, p.mode, p.data.len(), p.ch);
                    for q in [1, 2, 4] {
                        if q == 4 || m == RE {
                            ctx.fail(if q == 1 { 2 } else { q }, "missing", || {
                                format!("all fragments of packet {s} (mode {m}, channel {c}, {n} bytes) arrived in time, but the receiver moved past it")
                            });
                        }
                    }
                }
                if p.due {
                    due_left -= 1;
                }
                pk.pop_first();
            }
            if flow.delivered > 0 {
                ctx.stats.max("max:synth_lag", next - base);
            }
        }
        if ctx.failed() {
            break;
        }
        if idle > 60 || (todo.is_empty() && base == next && (wrapped || g("lost", 0) == 0)) {
            break;
        }
    }
    if !ctx.failed() {
        let mut miss = None;
        for p in pk.values() {
            if p.due && !flow.subs[p.sub].delivered {
                miss = Some((p.sub, p.mode, p.data.len(), p.ch));
                break;
            }
        }
        if let Some((s, m, n, c)) = miss {
            for q in [2, 4] {
                if q == 4 || m == RE {
                    ctx.fail(q, "missing", || {
                        format!("all fragments of packet {s} (mode {m}, channel {c}, {n} bytes) arrived, but it was never delivered")
                    });
                }
            }
        }
        if base != next || !todo.is_empty() {
            let (b, n, t) = (base, next, todo.len());
            ctx.fail(4, "stuck", || format!("the receiver's window stays at packet {b} of {n} ({t} not sent) although everything arrived"));
        } else {
            ctx.stats.add("probe:synth_delivered", flow.delivered);
        }
    }
    let _ = due_left;
    lib("drop", move || drop(hc));
}

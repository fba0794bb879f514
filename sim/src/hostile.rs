//! Frames a hostile (but otherwise connected) peer or an off-path attacker may send.

use crate::rng::Rng;
use crate::wire::{seal, Dg, Fr, Grp, FRAG, ID_MASK};

/// What the attacker may know about the endpoint it attacks.
#[derive(Clone, Default)]
pub struct View {
    /// next data frame id the target expects
    pub rx_frame: u32,
    /// target's packet receive window base (as last advertised)
    pub rx_packet: u32,
    /// highest packet id + 1 sent to the target
    pub rx_packet_next: u32,
    /// target's own frames: oldest outstanding, next
    pub tx_frame_base: u32,
    pub tx_frame_next: u32,
    pub tx_packet_base: u32,
    pub tx_packet_next: u32,
    /// nonces of the target's recent frames, newest last
    pub nonces: Vec<(u32, bool)>,
    /// recent genuine frames delivered to the target
    pub recent: Vec<Vec<u8>>,
    pub win: u32,
}

fn near(r: &mut Rng, base: u32, next: u32, win: u32) -> u32 {
    let off = match r.below(14) {
        0 => 0,
        1 => 1,
        2 => win.wrapping_sub(1),
        3 => win,
        4 => win + 1,
        5 => 0u32.wrapping_sub(1),
        6 => 0u32.wrapping_sub(win),
        7 => r.below(win as u64 * 2 + 1) as u32,
        8 => r.below(64) as u32,
        9 => return next,
        10 => return next.wrapping_add(r.below(8) as u32).wrapping_sub(4),
        11 => 0x80000,
        12 => r.u64() as u32,
        _ => next.wrapping_sub(base) / 2,
    };
    base.wrapping_add(off)
}

fn u16ish(r: &mut Rng) -> u16 {
    match r.below(9) {
        0 | 1 => 0,
        2 => 1,
        3 => r.below(16) as u16,
        4 => r.below(4100) as u16,
        5 => 4095,
        6 => 4096,
        7 => 65535,
        _ => r.u64() as u16,
    }
}

pub fn datagram(r: &mut Rng, v: &View) -> Dg {
    let mut last = match r.below(8) {
        0..=3 => 0,
        4 => 1,
        5 => r.below(5) as u16,
        6 => u16ish(r),
        _ => r.below(800) as u16,
    };
    let mut frag = match r.below(5) {
        0 => last,
        1 => 0,
        2 => u16ish(r),
        _ => r.below(last as u64 + 1) as u16,
    };
    if r.one_in(20) {
        std::mem::swap(&mut last, &mut frag);
    }
    let n = if frag < last && !r.one_in(12) {
        FRAG
    } else {
        match r.below(6) {
            0 => 0,
            1 => 1,
            2 => FRAG,
            3 => r.below(FRAG as u64 + 1) as usize,
            4 if r.one_in(3) => FRAG + 1 + r.below(40) as usize,
            _ => r.below(80) as usize,
        }
    };
    let (mut wlead, mut clead) = (u16ish(r), u16ish(r));
    if r.one_in(3) {
        wlead = 0;
        clead = 0;
    } else if r.one_in(2) && clead != 0 {
        clead = clead.max(wlead);
        wlead = wlead.max(1);
    }
    let mut data = vec![0u8; n];
    let fill = r.u64();
    for (i, b) in data.iter_mut().enumerate() {
        *b = (fill >> (i % 8 * 8)) as u8;
    }
    Dg {
        id: near(r, v.rx_packet, v.rx_packet_next, 4096) & ID_MASK,
        ch: if r.one_in(3) { r.below(64) as u8 } else { r.below(3) as u8 },
        wlead,
        clead,
        frag,
        last,
        data,
    }
}

/// Build one frame of the given kind.
pub fn build(kind: i64, r: &mut Rng, v: &View) -> Vec<u8> {
    match kind {
        0 => {
            let n = match r.below(5) {
                0 => r.below(4) as usize,
                1 => 1472,
                _ => r.below(1500) as usize,
            };
            let mut b: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect();
            if n > 0 && r.one_in(2) {
                b[0] = r.pick(&[0u8, 1, 2, 3, 4, 5, 10, 10, 11, 12, 6, 9, 13, 255]);
            }
            if r.one_in(3) {
                b
            } else {
                seal(b)
            }
        }
        1 => {
            // A genuine frame with a few fields overwritten and a valid checksum.
            if v.recent.is_empty() {
                return seal(vec![11, 3, 0, 0, 0, 0, 0, 0, 0, 0]);
            }
            let mut b = v.recent[r.below(v.recent.len() as u64) as usize].clone();
            let n = b.len().saturating_sub(4);
            b.truncate(n);
            for _ in 0..1 + r.below(4) {
                if n > 0 {
                    let lim = if r.one_in(2) { n.min(24) } else { n };
                    let i = r.below(lim as u64) as usize;
                    b[i] = match r.below(4) {
                        0 => 0,
                        1 => 255,
                        2 => b[i] ^ (1 << r.below(8)),
                        _ => r.u64() as u8,
                    };
                }
            }
            if r.one_in(8) && n > 1 {
                b.truncate(1 + r.below(n as u64 - 1) as usize);
            }
            if r.one_in(10) {
                b.extend_from_slice(&[0; 3]);
            }
            seal(b)
        }
        2 | 3 => {
            let n = match r.below(6) {
                0 => 0,
                1..=3 => 1,
                4 => r.below(5),
                _ => r.below(128),
            };
            let mut dgs = Vec::new();
            let mut size = 10;
            for _ in 0..n {
                let d = datagram(r, v);
                size += d.encoded_len();
                if size > 1472 {
                    break;
                }
                dgs.push(d);
            }
            let id = if r.one_in(5) { near(r, v.rx_frame, v.rx_frame, v.win) } else { v.rx_frame.wrapping_add(r.below(3) as u32) };
            Fr::Data { id, nonce: r.one_in(2), dgs }.encode()
        }
        4 => {
            let pk = near(r, v.rx_packet, v.rx_packet_next, 4096);
            let pk = if r.one_in(6) { pk | (r.u64() as u32) << 20 } else { pk & ID_MASK };
            Fr::Sync {
                frame: (!r.one_in(3)).then(|| near(r, v.rx_frame, v.rx_frame, v.win)),
                packet: (!r.one_in(3)).then_some(pk),
            }
            .encode()
        }
        5 | 6 => {
            let n = match r.below(5) {
                0 => 0,
                1 => r.below(160),
                _ => 1 + r.below(4),
            };
            let mut groups = Vec::new();
            for _ in 0..n {
                let base = near(r, v.tx_frame_base, v.tx_frame_next, v.win);
                let bits = match r.below(5) {
                    0 => 1,
                    1 => u32::MAX,
                    2 => 0,
                    3 => 1 << r.below(32),
                    _ => r.u64() as u32,
                };
                let mut nonce = false;
                for (id, x) in &v.nonces {
                    let i = id.wrapping_sub(base);
                    if i < 32 && bits >> i & 1 == 1 {
                        nonce ^= x;
                    }
                }
                if r.one_in(4) {
                    nonce = !nonce;
                }
                groups.push(Grp { base, bits, nonce });
            }
            let pb = near(r, v.tx_packet_base, v.tx_packet_next, 4096);
            let pb = if r.one_in(6) { pb | (r.u64() as u32) << 20 } else { pb & ID_MASK };
            let fb = if r.one_in(2) { v.tx_frame_base } else { near(r, v.tx_frame_base, v.tx_frame_next, v.win) };
            Fr::Ack { fbase: fb, pbase: if r.one_in(2) { v.tx_packet_base & ID_MASK } else { pb }, groups }.encode()
        }
        7 => {
            if v.recent.is_empty() {
                return vec![];
            }
            v.recent[r.below(v.recent.len() as u64) as usize].clone()
        }
        8 => {
            // Large claimed packets, to exhaust receive memory.
            let last = r.pick(&[1u16, 2, 7, 100, 700, 65535]);
            let d = Dg {
                id: v.rx_packet.wrapping_add(r.below(4096) as u32) & ID_MASK,
                ch: r.below(64) as u8,
                wlead: 0,
                clead: 0,
                frag: r.below(last as u64) as u16,
                last,
                data: vec![7; FRAG],
            };
            Fr::Data { id: v.rx_frame, nonce: r.one_in(2), dgs: vec![d] }.encode()
        }
        9 => {
            // Frames spread out so that every one opens an acknowledgement group of its own.
            Fr::Data { id: v.rx_frame.wrapping_add(32 + r.below(8) as u32), nonce: r.one_in(2), dgs: vec![] }.encode()
        }
        10 => Fr::Sync { frame: Some(v.rx_frame.wrapping_add(r.below(v.win as u64 + 1) as u32)), packet: None }.encode(),
        11 => Fr::SynAck {
            nonce_ack: r.u64() as u32,
            nonce: r.u64() as u32,
            rate: r.u64() as u32,
            packet: r.u64() as u32,
            alloc: r.u64() as u32,
        }
        .encode(),
        12 => Fr::HsErr { nonce_ack: r.u64() as u32, err: r.below(3) as u8 }.encode(),
        13 => Fr::HsAck { nonce_ack: r.u64() as u32 }.encode(),
        14 => Fr::Syn { version: 3, nonce: r.u64() as u32, rate: u32::MAX, packet: 1000, alloc: u32::MAX }.encode(),
        15 => Fr::Disc.encode(),
        16 => Fr::DiscAck.encode(),
        17 => {
            // Packets at the far end of the window with leads that reach behind its base.
            let mut dgs = Vec::new();
            for _ in 0..1 + r.below(6) {
                let wl = u16ish(r);
                dgs.push(Dg {
                    id: v.rx_packet.wrapping_add(r.pick(&[0u32, 1, 2, 3, 63, 64, 65, 4094, 4095])) & ID_MASK,
                    ch: r.below(3) as u8,
                    wlead: wl,
                    clead: if r.one_in(2) { 0 } else { wl.max(u16ish(r)) },
                    frag: 0,
                    last: 0,
                    data: vec![1; r.below(100) as usize],
                });
            }
            Fr::Data { id: v.rx_frame, nonce: r.one_in(2), dgs }.encode()
        }
        _ => Fr::Ack { fbase: v.tx_frame_base, pbase: v.tx_packet_base & ID_MASK, groups: vec![] }.encode(),
    }
}

//! Independent codec of the uflow wire format (used by oracles and by hostile peers).

pub const MAX_FRAME: usize = 1472;
pub const FRAG: usize = 1472 - 10 - 14;
pub const ID_MASK: u32 = 0xFFFFF;

pub fn id_sub(a: u32, b: u32) -> u32 {
    a.wrapping_sub(b) & ID_MASK
}

#[derive(Clone, Debug, PartialEq)]
pub struct Dg {
    pub id: u32,
    pub ch: u8,
    pub wlead: u16,
    pub clead: u16,
    pub frag: u16,
    pub last: u16,
    pub data: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Grp {
    pub base: u32,
    pub bits: u32,
    pub nonce: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fr {
    Syn { version: u8, nonce: u32, rate: u32, packet: u32, alloc: u32 },
    SynAck { nonce_ack: u32, nonce: u32, rate: u32, packet: u32, alloc: u32 },
    HsAck { nonce_ack: u32 },
    HsErr { nonce_ack: u32, err: u8 },
    Disc,
    DiscAck,
    Data { id: u32, nonce: bool, dgs: Vec<Dg> },
    Sync { frame: Option<u32>, packet: Option<u32> },
    Ack { fbase: u32, pbase: u32, groups: Vec<Grp> },
}

const fn table() -> [u32; 256] {
    let mut t = [0u32; 256];
    let mut i = 0;
    while i < 256 {
        let mut r = i as u32;
        let mut k = 0;
        while k < 8 {
            r = if r & 1 != 0 { (r >> 1) ^ 0x9960034C } else { r >> 1 };
            k += 1;
        }
        t[i] = r;
        i += 1;
    }
    t
}

static TABLE: [u32; 256] = table();

/// Per byte: reg = !crc; reg = table step; crc = !reg.
pub fn crc(data: &[u8]) -> u32 {
    let mut reg = !0u32;
    for &b in data {
        reg = (reg >> 8) ^ TABLE[((reg ^ b as u32) & 0xFF) as usize];
    }
    !reg
}

pub fn seal(mut body: Vec<u8>) -> Vec<u8> {
    let c = crc(&body);
    body.extend_from_slice(&c.to_be_bytes());
    body
}

fn be32(d: &[u8]) -> u32 {
    u32::from_be_bytes([d[0], d[1], d[2], d[3]])
}

fn be16(d: &[u8]) -> u16 {
    u16::from_be_bytes([d[0], d[1]])
}

impl Dg {
    pub fn encode(&self, out: &mut Vec<u8>) {
        let n = self.data.len();
        if self.last == 0 && self.frag == 0 && n < 64 && self.wlead < 128 && self.clead < 256 {
            out.push(n as u8 | (self.ch & 0x10) << 2);
            out.push((self.id >> 12) as u8 & 0xF0 | self.ch & 0x0F);
            out.push((self.id >> 8) as u8);
            out.push(self.id as u8);
            out.push(self.wlead as u8 | (self.ch & 0x20) << 2);
            out.push(self.clead as u8);
        } else if self.last == 0 && self.frag == 0 && n < 256 {
            out.push(self.ch | 0x80);
            out.push(n as u8);
            out.extend_from_slice(&self.id.to_be_bytes()[1..]);
            out.extend_from_slice(&self.wlead.to_be_bytes());
            out.extend_from_slice(&self.clead.to_be_bytes());
        } else {
            out.push(self.ch | 0xC0);
            out.extend_from_slice(&(n as u16).to_be_bytes());
            out.extend_from_slice(&self.id.to_be_bytes()[1..]);
            out.extend_from_slice(&self.wlead.to_be_bytes());
            out.extend_from_slice(&self.clead.to_be_bytes());
            out.extend_from_slice(&self.frag.to_be_bytes());
            out.extend_from_slice(&self.last.to_be_bytes());
        }
        out.extend_from_slice(&self.data);
    }

    pub fn encoded_len(&self) -> usize {
        let n = self.data.len();
        if self.last == 0 && self.frag == 0 && n < 64 && self.wlead < 128 && self.clead < 256 {
            6 + n
        } else if self.last == 0 && self.frag == 0 && n < 256 {
            9 + n
        } else {
            14 + n
        }
    }

    fn decode(d: &[u8]) -> Option<(Dg, usize)> {
        if d.len() < 6 {
            return None;
        }
        let (hdr, n, dg);
        if d[0] & 0x80 == 0 {
            hdr = 6;
            n = (d[0] & 0x3F) as usize;
            dg = Dg {
                ch: (d[4] >> 2) & 0x20 | (d[0] >> 2) & 0x10 | d[1] & 0x0F,
                id: ((d[1] & 0xF0) as u32) << 12 | (d[2] as u32) << 8 | d[3] as u32,
                wlead: (d[4] & 0x7F) as u16,
                clead: d[5] as u16,
                frag: 0,
                last: 0,
                data: vec![],
            };
        } else if d[0] & 0x40 == 0 {
            if d.len() < 9 {
                return None;
            }
            hdr = 9;
            n = d[1] as usize;
            dg = Dg {
                ch: d[0] & 0x3F,
                id: be32(&[0, d[2] & 0x0F, d[3], d[4]]),
                wlead: be16(&d[5..]),
                clead: be16(&d[7..]),
                frag: 0,
                last: 0,
                data: vec![],
            };
        } else {
            if d.len() < 14 {
                return None;
            }
            hdr = 14;
            n = be16(&d[1..]) as usize;
            dg = Dg {
                ch: d[0] & 0x3F,
                id: be32(&[0, d[3] & 0x0F, d[4], d[5]]),
                wlead: be16(&d[6..]),
                clead: be16(&d[8..]),
                frag: be16(&d[10..]),
                last: be16(&d[12..]),
                data: vec![],
            };
        }
        if d.len() < hdr + n {
            return None;
        }
        Some((Dg { data: d[hdr..hdr + n].to_vec(), ..dg }, hdr + n))
    }
}

impl Fr {
    pub fn encode(&self) -> Vec<u8> {
        let mut b = Vec::new();
        match self {
            Fr::Syn { version, nonce, rate, packet, alloc } => {
                b.extend_from_slice(&[0, *version]);
                for v in [nonce, rate, packet, alloc] {
                    b.extend_from_slice(&v.to_be_bytes());
                }
                b.resize(MAX_FRAME - 4, 0);
            }
            Fr::SynAck { nonce_ack, nonce, rate, packet, alloc } => {
                b.push(1);
                for v in [nonce_ack, nonce, rate, packet, alloc] {
                    b.extend_from_slice(&v.to_be_bytes());
                }
            }
            Fr::HsAck { nonce_ack } => {
                b.push(2);
                b.extend_from_slice(&nonce_ack.to_be_bytes());
            }
            Fr::HsErr { nonce_ack, err } => {
                b.push(3);
                b.extend_from_slice(&nonce_ack.to_be_bytes());
                b.push(*err);
            }
            Fr::Disc => b.push(4),
            Fr::DiscAck => b.push(5),
            Fr::Data { id, nonce, dgs } => {
                b.push(10);
                b.extend_from_slice(&id.to_be_bytes());
                b.push((*nonce as u8) << 7 | dgs.len() as u8 & 0x7F);
                for d in dgs {
                    d.encode(&mut b);
                }
            }
            Fr::Sync { frame, packet } => {
                b.push(11);
                b.push(frame.is_some() as u8 | (packet.is_some() as u8) << 1);
                b.extend_from_slice(&frame.unwrap_or(0).to_be_bytes());
                b.extend_from_slice(&packet.unwrap_or(0).to_be_bytes());
            }
            Fr::Ack { fbase, pbase, groups } => {
                b.push(12);
                b.extend_from_slice(&fbase.to_be_bytes());
                b.extend_from_slice(&pbase.to_be_bytes());
                b.extend_from_slice(&(groups.len() as u16).to_be_bytes());
                for g in groups {
                    b.extend_from_slice(&g.base.to_be_bytes());
                    b.extend_from_slice(&g.bits.to_be_bytes());
                    b.push(g.nonce as u8);
                }
            }
        }
        seal(b)
    }

    pub fn decode(f: &[u8]) -> Option<Fr> {
        if f.len() < 5 || crc(&f[..f.len() - 4]) != be32(&f[f.len() - 4..]) {
            return None;
        }
        let p = &f[1..f.len() - 4];
        Some(match f[0] {
            0 if p.len() == MAX_FRAME - 5 => Fr::Syn {
                version: p[0],
                nonce: be32(&p[1..]),
                rate: be32(&p[5..]),
                packet: be32(&p[9..]),
                alloc: be32(&p[13..]),
            },
            1 if p.len() == 20 => Fr::SynAck {
                nonce_ack: be32(p),
                nonce: be32(&p[4..]),
                rate: be32(&p[8..]),
                packet: be32(&p[12..]),
                alloc: be32(&p[16..]),
            },
            2 if p.len() == 4 => Fr::HsAck { nonce_ack: be32(p) },
            3 if p.len() == 5 && p[4] < 3 => Fr::HsErr { nonce_ack: be32(p), err: p[4] },
            4 if p.is_empty() => Fr::Disc,
            5 if p.is_empty() => Fr::DiscAck,
            10 if p.len() >= 5 => {
                let mut d = &p[5..];
                let mut dgs = Vec::new();
                for _ in 0..p[4] & 0x7F {
                    let (dg, n) = Dg::decode(d)?;
                    dgs.push(dg);
                    d = &d[n..];
                }
                if !d.is_empty() {
                    return None;
                }
                Fr::Data { id: be32(p), nonce: p[4] & 0x80 != 0, dgs }
            }
            11 if p.len() == 9 => Fr::Sync {
                frame: (p[0] & 1 != 0).then(|| be32(&p[1..])),
                packet: (p[0] & 2 != 0).then(|| be32(&p[5..])),
            },
            12 if p.len() >= 10 => {
                let n = be16(&p[8..]) as usize;
                if p.len() != 10 + 9 * n {
                    return None;
                }
                Fr::Ack {
                    fbase: be32(p),
                    pbase: be32(&p[4..]),
                    groups: p[10..]
                        .chunks(9)
                        .map(|c| Grp { base: be32(c), bits: be32(&c[4..]), nonce: c[8] != 0 })
                        .collect(),
                }
            }
            _ => return None,
        })
    }
}

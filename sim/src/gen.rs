//! Plan generators: every run of a check is `gen(property, seed, index)`, nothing else.

use crate::flow::{PE, RE, TS, UN};
use crate::gennet::{self, CHURN, DISC, IDLE, LIMITS, NHOST, SHAKE, SPOOF, TIMEOUT, TRAFFIC};
use crate::plan::Plan;
use crate::rng::{mix2, Rng};

/// Scenario kinds.
pub const LOSSY: i64 = 0;
pub const IDEAL: i64 = 1;
pub const SIZES: i64 = 2;
pub const OUTAGE: i64 = 3;
pub const HOSTILE: i64 = 4;
pub const BLACKHOLE: i64 = 5;
pub const RATE: i64 = 6;
pub const INJECT: i64 = 7;
pub const SYNTH: i64 = 8;
pub const PINNED: i64 = 9;
pub const MEMORY: i64 = 10;
pub const WINDOWS: i64 = 11;
pub const FLOOD: i64 = 13;
const STREAM: i64 = 14;
pub const MARATHON: i64 = 15;
pub const FEEDBACK: i64 = 16;

pub fn kind_name(_prop: u8, k: i64) -> &'static str {
    match k {
        LOSSY => "lossy",
        IDEAL => "ideal",
        SIZES => "sizes",
        OUTAGE => "outage",
        HOSTILE => "hostile",
        BLACKHOLE => "blackhole",
        RATE => "ceiling",
        INJECT => "inject",
        SYNTH => "synthetic",
        PINNED => "pinned",
        MEMORY => "memory",
        WINDOWS => "windows",
        FLOOD => "flood",
        STREAM => "stream",
        MARATHON => "marathon",
        FEEDBACK => "feedback",
        _ => gennet::name(k).unwrap_or("other"),
    }
}

fn kinds(prop: u8) -> &'static [i64] {
    match prop {
        1 => &[LOSSY, SYNTH, SIZES, LOSSY, WINDOWS, SYNTH, OUTAGE, TRAFFIC],
        2 => &[LOSSY, OUTAGE, WINDOWS, LOSSY, SIZES, DISC, STREAM, TRAFFIC, SYNTH],
        3 => &[HOSTILE, FLOOD, NHOST, SYNTH, HOSTILE, LOSSY, NHOST, CHURN],
        4 => &[SIZES, SYNTH, SIZES, SYNTH, LOSSY, TRAFFIC],
        5 => &[IDEAL, IDEAL, WINDOWS, TRAFFIC],
        6 => &[MEMORY, IDEAL, MEMORY, FLOOD, TRAFFIC, LOSSY, WINDOWS],
        7 => &[SHAKE, gennet::DUEL, CHURN, SHAKE, gennet::DUEL, SPOOF, TRAFFIC, SHAKE, gennet::DUEL, LIMITS],
        8 => &[CHURN, DISC, CHURN, SHAKE, DISC, NHOST, LIMITS, gennet::DUEL],
        9 => &[DISC, DISC, CHURN],
        10 => &[IDLE, TIMEOUT, SHAKE, TIMEOUT, DISC, TIMEOUT, CHURN, gennet::DUEL],
        11 => &[OUTAGE, WINDOWS, PINNED, STREAM, OUTAGE, LOSSY, TRAFFIC],
        12 => &[LOSSY, BLACKHOLE, RATE, OUTAGE, LOSSY, SIZES, TRAFFIC, WINDOWS],
        13 => &[RATE, LOSSY, RATE, SIZES, SYNTH, TRAFFIC, OUTAGE, RATE, PINNED],
        14 if cfg!(feature = "direct") => &[LOSSY, FEEDBACK, OUTAGE, FEEDBACK, STREAM, FEEDBACK, LOSSY, HOSTILE, FEEDBACK, RATE, FEEDBACK, WINDOWS],
        14 => &[LOSSY, OUTAGE, STREAM, LOSSY, HOSTILE, RATE, WINDOWS],
        15 => &[INJECT],
        17 => &[LIMITS, LIMITS, CHURN],
        18 => &[SPOOF, SPOOF, SHAKE, LIMITS],
        19 => &[LOSSY, HOSTILE, SIZES, SYNTH, FLOOD, CHURN, NHOST, DISC],
        20 => &[LOSSY, WINDOWS, SIZES, OUTAGE, RATE, TRAFFIC, DISC],
        _ => &[LOSSY],
    }
}

/// Restrict the search to one kind of scenario (for experiments).
pub static ONLY_KIND: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(-1);

pub fn gen(prop: u8, seed: u64, index: u64, tier: &str) -> Plan {
    let ks = kinds(prop);
    let mut k = ks[(index % ks.len() as u64) as usize];
    if matches!(prop, 1 | 2 | 5 | 11 | 20) && index % 40 == 37 {
        k = MARATHON;
    }
    match ONLY_KIND.load(std::sync::atomic::Ordering::Relaxed) {
        -1 => {}
        o => k = o,
    }
    let mut r = Rng::stream(mix2(seed, prop as u64), index);
    let pseed = r.u64() >> 1;
    let deep = tier == "thorough";
    let mut p = match k {
        SYNTH => synth(pseed, &mut r),
        FEEDBACK => feedback(pseed, &mut r),
        IDLE if index == 0 => return gennet::known_plan(),
        CHURN..=gennet::DUEL => gennet::NetGen::new(pseed, r).build(prop, k, deep),
        _ => LinkGen::new(pseed, r).build(prop, k, deep),
    };
    p.set("kind", k);
    p.sort();
    p
}

/// Histories of feedback reports and silences for the send rate computation (see feedback.rs).
fn feedback(seed: u64, r: &mut Rng) -> Plan {
    let mut p = Plan::new("feedback", seed);
    let max = match r.below(4) {
        0 => r.range(1472, 3000),
        1 => u32::MAX as i64,
        _ => r.log_range(1472, u32::MAX as i64),
    };
    p.set("max", max).set("base", if r.one_in(3) { r.log_range(1, 1 << 40) } else { 0 });
    let mut t = r.log_range(1, 1_000_000) as u64;
    let n = r.log_range(2, 500);
    // The history is made of stretches which resemble each other inside.
    let mut left = 0;
    let (mut rtt, mut noise, mut gap, mut loss, mut lim, mut rk, mut busy) = (100i64, 0i64, 50i64, 0u64, 2u64, 0u64, true);
    if !r.one_in(20) {
        p.op(t, "sent", &[]);
    }
    for _ in 0..n {
        if left == 0 {
            left = r.log_range(1, 100);
            rtt = match r.below(8) {
                0 => 0,
                1 => r.range(0, 3),
                2 => r.log_range(1000, 1_000_000),
                _ => r.log_range(1, 1000),
            };
            noise = if r.one_in(2) { 0 } else { r.log_range(1, rtt.max(2)) };
            gap = match r.below(5) {
                0 => r.log_range(1, 20),
                1 => r.log_range(1, 100_000),
                _ => rtt.max(1),
            };
            loss = r.below(5);
            lim = r.below(4);
            rk = r.below(4);
            busy = !r.one_in(3);
        }
        left -= 1;
        t += match r.below(12) {
            0 => 0,
            1 => r.log_range(1, 10_000_000) as u64,
            2 => r.log_range(1, 600_000_000) as u64,
            _ => (gap as u64 * 1000).saturating_mul(r.range(1, 40) as u64) / 20,
        };
        if busy && !r.one_in(4) || r.one_in(10) {
            p.op(t, "sent", &[]);
        }
        match r.below(10) {
            0..=2 => p.op(t, "adv", &[]),
            3 if r.one_in(4) => {
                // Silence
                for _ in 0..r.range(1, 12) {
                    t += r.log_range(1000, 200_000_000) as u64;
                    if r.one_in(5) {
                        p.op(t, "sent", &[]);
                    }
                    p.op(t, "adv", &[]);
                }
            }
            _ => {
                let s = (rtt + r.range(0, 2 * noise) - noise).max(0);
                let (rkind, rv) = match rk {
                    0 => (0, r.log_range(1, u32::MAX as i64 + 1) - 1),
                    1 if r.one_in(2) => (0, r.pick(&[0, 1, 2, 1472, u32::MAX as i64])),
                    1 => (1, r.log_range(1, 100_000)),
                    2 => (1, r.range(300, 1100)),
                    _ => (1, r.range(900, 1000)),
                };
                let (lk, lv) = match loss {
                    0 => (0, 0),
                    1 => (1, r.log_range(1, 1_000_000_000)),
                    2 => (r.pick(&[2, 3]), r.range(500, 1500)),
                    3 => (r.pick(&[2, 2, 3]), r.pick(&[1000, 1000, 1000, 999, 1001, 2000])),
                    _ => (r.pick(&[0, 1, 2, 3]), r.log_range(1, 1_000_000_000)),
                };
                let lk = if lk != 0 && r.one_in(8) { 1 } else { lk };
                let l = match lim {
                    0 => 0,
                    1 => 1,
                    _ => r.below(2) as i64,
                };
                p.op(t, "fb", &[s, rkind, rv, lk, lv, l]);
            }
        }
    }
    p
}

/// A receiver fed with fragments in arbitrary order (see synth.rs).
fn synth(seed: u64, r: &mut Rng) -> Plan {
    let mut p = Plan::new("synth", seed);
    let wrap = |r: &mut Rng, bits: u32| {
        let m = 1i64 << bits;
        match r.below(3) {
            0 => r.below(m as u64) as i64,
            1 => m - r.log_range(1, 100),
            _ => m - r.log_range(1, 5000),
        }
    };
    let pw = if r.one_in(2) { 12 } else { r.range(0, 12) };
    let al = match r.below(3) {
        0 => 4_000_000,
        1 => r.log_range(1448, 40_000),
        _ => r.log_range(10_000, 1_000_000),
    };
    let cap = (al + 1447) / 1448 * 1448;
    let (fb, pb) = (wrap(r, 32), wrap(r, 20));
    p.set("pw", pw).set("al", al).set("fb", fb).set("pb", pb);
    let order = r.below(5) as i64;
    let rate = |r: &mut Rng| if r.one_in(3) { 0 } else { r.log_range(10_000, 500_000) };
    let (dup, conf, lose, dupf) = (rate(r), rate(r) * 2 / 3, rate(r) / 4, rate(r) / 4);
    p.set("order", order).set("dup", dup).set("conf", conf).set("lose", lose).set("dupf", dupf);
    let flight = r.log_range(1, 200);
    let recv = if r.one_in(2) { 1_000_000 } else { r.log_range(5_000, 1_000_000) };
    let (gap, maxdg, pick) = (r.log_range(10, 50_000), r.log_range(1, 60), r.below(4) as i64);
    p.set("flight", flight).set("recv", recv).set("gap", gap).set("maxdg", maxdg).set("pick", pick);
    let owing = r.one_in(10);
    if owing || r.one_in(4) {
        p.set("arate", r.log_range(1472, 100_000)).set("fskip", r.log_range(100_000, 1_000_000));
    }
    if owing {
        // A slow receiver which owes more acknowledgements than fit in a frame.
        p.set("recv", r.log_range(1_000, 20_000)).set("fskip", r.range(700_000, 1_000_000)).set("fjump", r.range(29, 40));
        p.set("pw", 12).set("al", 4_000_000).set("flight", 1000).set("maxdg", r.log_range(1, 3)).set("dup", 0).set("conf", 0);
    }
    let n = r.log_range(1, 400);
    let wraps = pw >= 10 && r.one_in(6);
    let nch = r.pick(&[1, 2, 3, 8, 64]);
    let big = !owing && r.one_in(2);
    let n = if owing { r.range(150, 600) } else { n };
    let modes = r.pick(&[&[RE][..], &[RE, UN], &[UN, PE, RE, RE], &[UN], &[PE, RE], &[TS, UN, PE, RE]]);
    let mut budget = 2_000_000i64;
    for i in 0..n {
        let s = match r.below(6) {
            0 if !big => r.range(0, 70),
            0 | 1 => r.log_range(1, 12) * 1448 + r.range(-1, 1),
            2 => r.range(0, 300),
            3 if big => r.log_range(1448, 200_000),
            4 => r.pick(&[0, 1, 7, 8, 63, 64, 65, 255, 256, 257, 1447, 1448, 1449, 2896]),
            _ => r.log_range(1, 6000),
        };
        let s = s.clamp(0, cap);
        budget -= s.max(200);
        if budget < 0 {
            break;
        }
        let (ch, m) = (r.below(nch) as i64, r.pick(modes) as i64);
        let late = wraps && i >= n / 2;
        p.op(i as u64, if late { "send2" } else { "send" }, &[ch, m, s]);
    }
    if r.one_in(2) {
        p.set("osync", r.log_range(2_000, 300_000));
    }
    if wraps {
        let back = if r.one_in(4) { r.range(-2000, 6000) } else { r.log_range(1, 4096) };
        p.set("lost", (1 << 20) - back).set("stale", r.log_range(20_000, 900_000));
    }
    p
}

struct LinkGen {
    p: Plan,
    r: Rng,
    end: i64,
    al: [i64; 2],
    rate: [i64; 2],
    lat: i64,
    tiny_left: i64,
    packing: bool,
}

const LOSSES: &[i64] = &[0, 0, 5_000, 20_000, 50_000, 100_000, 200_000, 300_000, 500_000];

impl LinkGen {
    fn new(seed: u64, r: Rng) -> Self {
        LinkGen {
            p: Plan::new("link", seed),
            r,
            end: 5_000_000,
            al: [1_000_000; 2],
            rate: [2_000_000; 2],
            lat: 20_000,
            tiny_left: 40,
            packing: false,
        }
    }

    fn near_wrap(&mut self, bits: u32) -> i64 {
        let m = 1i64 << bits;
        match self.r.below(4) {
            0 => 0,
            1 => self.r.below(m as u64) as i64,
            2 => m - 1 - self.r.log_range(1, 300) + 1,
            _ => m - self.r.log_range(1, 6000).min(m - 1),
        }
    }

    /// Parameters of the two endpoints.
    fn base(&mut self, pw_min: i64, fw_min: i64) {
        let small = self.r.one_in(2);
        for e in 0..2 {
            let s = |k: &str| format!("{k}{e}");
            let pw = if small { self.r.range(pw_min, 12) } else { 12 };
            let fw = if small { self.r.range(fw_min, 12) } else { 12 };
            let (fb, pb) = (self.near_wrap(32), self.near_wrap(20));
            self.al[e] = match self.r.below(4) {
                0 => 1_000_000,
                1 => self.r.log_range(200, 10_000),
                2 => self.r.log_range(1448, 100_000),
                _ => self.r.log_range(5_000, 4_000_000),
            };
            self.rate[e] = match self.r.below(5) {
                0 => self.r.log_range(1472, 20_000),
                1 => self.r.log_range(5_000, 200_000),
                2 => 2_000_000,
                _ => self.r.log_range(50_000, 20_000_000),
            };
            let tick = match self.r.below(5) {
                0 => self.r.log_range(500, 5_000),
                1 => self.r.log_range(50_000, 400_000),
                _ => self.r.log_range(2_000, 50_000),
            };
            let jit = if self.r.one_in(2) { 0 } else { self.r.log_range(1, tick * 4) };
            let ka = match self.r.below(4) {
                0 => -1,
                1 => self.r.log_range(1, 10_000),
                _ => 5000,
            };
            let skew = if self.r.one_in(2) { 0 } else { self.r.range(-100_000, 100_000) };
            let fl = if self.r.one_in(2) { 0 } else { self.r.range(0, 1_000_000) };
            let (al, rate) = (self.al[e], self.rate[e]);
            let p = &mut self.p;
            p.set(&s("pw"), pw).set(&s("fw"), fw).set(&s("fb"), fb).set(&s("pb"), pb);
            p.set(&s("al"), al).set(&s("rate"), rate).set(&s("tick"), tick).set(&s("jit"), jit);
            p.set(&s("ka"), ka).set(&s("skew"), skew).set(&s("fl"), fl);
        }
        self.lat = self.r.log_range(100, 400_000);
    }

    fn set_end(&mut self, lo: i64, hi: i64) {
        self.end = self.r.log_range(lo, hi);
        let e = self.end;
        self.p.set("end", e);
    }

    fn t(&mut self) -> u64 {
        self.r.below(self.end as u64)
    }

    fn mode(&mut self, ts: bool) -> i64 {
        loop {
            let m = self.r.pick(&[TS, UN, UN, PE, PE, RE, RE, RE]);
            if m != TS || ts {
                return m as i64;
            }
        }
    }

    fn size(&mut self, cap: i64) -> i64 {
        let s = match self.r.below(7) {
            0 => self.r.range(8, 64),
            1 => self.r.range(64, 1448),
            2 => self.r.pick(&[1447, 1448, 1449, 2895, 2896, 2897]),
            3 => self.r.log_range(1448, 30_000),
            4 => cap,
            _ => self.r.log_range(8, 3000),
        };
        s.clamp(8, cap.max(8))
    }

    /// Submissions of both endpoints, within a byte budget per direction.
    fn traffic(&mut self, dirs: &[usize], streams: i64, max_bytes: i64, ts: bool) {
        for &e in dirs {
            let n = self.r.range(1, streams);
            // What the link can carry within about 20 s.
            let mut left = (self.rate[e].min(self.rate[1 - e]).saturating_mul(20)).min(max_bytes);
            let cap = self.al[1 - e].min(200_000);
            let channels = self.r.pick(&[1i64, 1, 2, 3, 8, 60]);
            for _ in 0..n {
                let size = self.size(cap);
                let most = (left / size.max(30)).min(600);
                if most < 1 {
                    break;
                }
                let count = self.r.log_range(1, most);
                left -= count * size.max(30);
                let period = if self.r.one_in(2) { 0 } else { self.r.log_range(100, self.end / count.max(1) + 200) };
                let (t, ch, m) = (self.t(), self.r.below(channels as u64) as i64, self.mode(ts));
                self.p.op(t, "bulk", &[e as i64, ch, m, size, count, period]);
            }
            // A few packets too small to carry a label, on a channel of their own.
            if self.r.one_in(3) {
                for _ in 0..self.r.below(8) {
                    if self.tiny_left == 0 {
                        break;
                    }
                    self.tiny_left -= 1;
                    let (t, s) = (self.t(), self.r.range(0, 7));
                    self.p.op(t, "send", &[e as i64, 63, RE as i64, s]);
                }
            }
        }
    }

    /// Interleaved single packets over several channels and modes.
    fn mix_traffic(&mut self, dirs: &[usize], max_packets: i64, max_bytes: i64, ts: bool) {
        for &e in dirs {
            let n = self.r.log_range(1, max_packets);
            let mut left = (self.rate[e].min(self.rate[1 - e]).saturating_mul(20)).min(max_bytes);
            let cap = self.al[1 - e].min(100_000);
            let channels = self.r.pick(&[1i64, 2, 3, 5, 60]);
            let mut t = self.t();
            // Packets of which many fit in a frame, at the sizes where their encoding changes.
            let packing = self.packing || self.r.one_in(4);
            if packing && self.r.one_in(2) {
                // More packets at once than a frame has room to count.
                for _ in 0..self.r.range(1, 3) {
                    let count = self.r.pick(&[64, 127, 128, 129, 200, 255, 256, 257, 300]);
                    if left > 30 * count {
                        left -= 30 * count;
                        let (t, s) = (self.t(), self.r.below(7) as i64);
                        self.p.op(t, "bulk", &[e as i64, 63, RE as i64, s, count, 0]);
                    }
                }
            }
            for _ in 0..n {
                let size = if packing && cap >= 300 {
                    match self.r.below(4) {
                        0 => self.r.pick(&[63, 64, 64, 64, 65]),
                        1 => self.r.pick(&[255, 256, 256, 256, 257]),
                        _ => self.r.log_range(8, 300),
                    }
                } else {
                    self.size(cap)
                };
                left -= size.max(30);
                if left < 0 {
                    break;
                }
                if self.r.one_in(6) {
                    t = self.t();
                } else if self.r.one_in(2) {
                    t += self.r.log_range(1, 30_000) as u64;
                }
                let (ch, m) = (self.r.below(channels as u64) as i64, self.mode(ts));
                self.p.op(t.min(self.end as u64), "send", &[e as i64, ch, m, size]);
            }
        }
    }

    /// Packets at certain distances from the Reliable packets they depend on, and of sizes at which the encoding changes.
    fn lead_traffic(&mut self, dirs: &[usize], groups: i64, max_bytes: i64, lossy: bool) {
        for &e in dirs {
            let mut left = (self.rate[e].min(self.rate[1 - e]).saturating_mul(10)).min(max_bytes);
            let cap = self.al[1 - e].min(20_000);
            for _ in 0..self.r.range(1, groups) {
                let t = self.t();
                let x = self.r.below(3) as i64;
                let y = 3 + self.r.below(3) as i64;
                let z = if self.r.one_in(4) { y } else { 6 };
                let e = e as i64;
                let s0 = self.size(cap.min(2000));
                self.p.op(t, "send", &[e, x, RE as i64, s0]);
                if lossy && self.r.one_in(2) {
                    self.p.op(t, "burst", &[e, 1]);
                }
                let mut done = 0;
                for _ in 0..self.r.range(1, 3) {
                    let lead = match self.r.below(4) {
                        0 => self.r.range(126, 130),
                        1 => self.r.range(254, 258),
                        2 => self.r.pick(&[1, 2, 63, 64, 65, 511, 512, 513, 1023, 1024, 1025]),
                        _ => self.r.log_range(1, 1500),
                    };
                    let fill = lead - 1 - done;
                    if fill < 0 || left < 20 * fill + 300 {
                        continue;
                    }
                    left -= 20 * fill + 300;
                    let w = match self.r.below(4) {
                        0 => 0,
                        1 => self.r.range(126, 129),
                        _ => self.r.log_range(1, 300),
                    };
                    let m = self.r.pick(&[UN, UN, PE]) as i64;
                    let s = self.r.range(8, 12);
                    if w > 0 && w <= fill {
                        if fill > w {
                            self.p.op(t, "bulk", &[e, y, m, s, fill - w, 0]);
                        }
                        self.p.op(t, "send", &[e, z, RE as i64, s]);
                        if w > 1 {
                            self.p.op(t, "bulk", &[e, y, m, s, w - 1, 0]);
                        }
                    } else if fill > 0 {
                        self.p.op(t, "bulk", &[e, y, m, s, fill, 0]);
                    }
                    let s = match self.r.below(3) {
                        0 => self.r.range(62, 66),
                        1 => self.r.range(254, 258),
                        _ => self.r.log_range(8, 100),
                    };
                    let m = self.r.pick(&[UN, UN, PE, RE]) as i64;
                    self.p.op(t, "send", &[e, x, m, s.clamp(8, cap.max(8))]);
                    if m == RE as i64 {
                        break;
                    }
                    done = lead;
                }
            }
        }
    }

    fn net0(&mut self) {
        let (l, j, f) = self.lat_jit();
        self.p.op(0, "net", &[2, l, j, 0, 0, 0, 511, f]);
    }

    fn lat_jit(&mut self) -> (i64, i64, i64) {
        let l = self.lat;
        let j = match self.r.below(3) {
            0 => 0,
            1 => self.r.log_range(1, l.max(2)),
            _ => self.r.log_range(1, l.max(2) * 5),
        };
        (l, j, self.r.below(2) as i64)
    }

    fn faults(&mut self, intensity: u64, latency_change: bool) {
        self.net0();
        for _ in 0..1 + self.r.below(5) {
            if latency_change && self.r.one_in(3) {
                self.lat = self.r.log_range(100, 2_000_000);
            }
            let (l, j, f) = self.lat_jit();
            let (loss, dup) = (self.r.pick(LOSSES), self.r.pick(&[0i64, 0, 10_000, 100_000, 300_000]));
            let corrupt = self.r.pick(&[0i64, 0, 0, 10_000, 100_000]);
            let mask = self.r.pick(&[511i64, 511, 511, 1, 4, 2, 6, 3]);
            let d = self.r.pick(&[2i64, 2, 0, 1]);
            let t = if self.r.one_in(3) { 0 } else { self.t() };
            self.p.op(t, "net", &[d, l, j, loss, dup, corrupt, mask, f]);
        }
        for _ in 0..self.r.below(intensity + 1) {
            let t = self.t();
            match self.r.below(6) {
                0 | 1 => {
                    let (d, dur, m) =
                        (self.r.range(0, 2), self.r.log_range(10_000, 20_000_000), self.r.pick(&[7i64, 7, 1, 4, 2]));
                    self.p.op(t, "cut", &[d, dur, m]);
                }
                2 => {
                    let (d, n) = (self.r.range(0, 1), self.r.log_range(1, 300));
                    self.p.op(t, "burst", &[d, n]);
                }
                3 => {
                    let (e, dur) = (self.r.range(0, 1), self.r.log_range(10_000, 10_000_000));
                    self.p.op(t, "stall", &[e, dur]);
                }
                4 => {
                    let i = self.r.log_range(500, 400_000);
                    let (e, j) = (self.r.range(0, 1), self.r.log_range(1, i));
                    self.p.op(t, "cadence", &[e, i, j]);
                }
                _ => {
                    let (e, n) = (self.r.range(0, 1), self.r.log_range(1, 20));
                    self.p.op(t, "flush", &[e, n]);
                }
            }
        }
    }

    /// The network becomes clean at `end` and everything must settle.
    fn settle(&mut self) {
        let lat = self.lat.min(500_000);
        let end = self.end as u64;
        self.p.op(end, "net", &[2, lat, 0, 0, 0, 0, 511, 1]);
        self.p.op(end, "burst", &[0, 0]);
        self.p.op(end, "burst", &[1, 0]);
        self.p.op(end, "cut", &[2, 0, 0]);
        for e in 0..2 {
            self.p.op(end, "stall", &[e, 0]);
            let (tick, jit) = (self.p.get(&format!("tick{e}"), 15_000), self.p.get(&format!("jit{e}"), 0));
            self.p.op(end, "cadence", &[e, tick.max(2_000), jit]);
        }
        self.p.set("quiet", 1);
    }

    fn probes(&mut self) {
        for e in 0..2 {
            let n = 1 + self.r.below(3);
            for _ in 0..n {
                let (ch, size) = (self.r.below(60) as i64, self.size(self.al[1 - e as usize].min(5000)));
                let t = self.end as u64 + 1 + self.r.below(2_000_000);
                self.p.op(t, "probe", &[e, ch, size]);
            }
        }
    }

    fn hostile_ops(&mut self, lo: i64, hi: i64) {
        let n = self.r.log_range(lo, hi);
        for _ in 0..n {
            let (t, e) = (self.t(), self.r.range(0, 1));
            let kind = if self.r.one_in(3) { -1 } else { self.r.pick(&[0, 1, 1, 2, 2, 2, 3, 4, 4, 5, 5, 6, 7, 8, 9, 10, 17, 17, 18]) };
            let count = self.r.log_range(1, 40);
            let period = self.r.log_range(1, 100_000);
            self.p.op(t, "hostile", &[e, kind, count, period]);
        }
    }

    fn build(mut self, prop: u8, kind: i64, deep: bool) -> Plan {
        let big = if deep && self.r.one_in(4) { 4 } else { 1 };
        match kind {
            LOSSY => {
                let safety = prop == 1 && self.r.one_in(4);
                self.base(if safety { 0 } else { 6 }, if safety { 1 } else { 6 });
                self.set_end(500_000, 30_000_000 * big);
                self.faults(6, true);
                if self.r.one_in(2) {
                    self.traffic(&[0, 1], 6, 400_000 * big, true);
                }
                self.mix_traffic(&[0, 1], 150 * big, 300_000 * big, true);
                if self.r.one_in(3) {
                    self.lead_traffic(&[0, 1], 6, 200_000 * big, true);
                }
                if !safety {
                    self.settle();
                }
            }
            IDEAL => {
                self.base(6, 6);
                self.p.set("ideal", 1);
                self.set_end(300_000, 10_000_000 * big);
                let j = if self.r.one_in(2) { 0 } else { self.r.log_range(1, self.lat * 4 + 2) };
                let l = self.lat;
                self.p.op(0, "net", &[2, l, j, 0, 0, 0, 511, 1]);
                let ts = self.r.one_in(2);
                if self.r.one_in(2) {
                    self.traffic(&[0, 1], 6, 1_000_000 * big, ts);
                }
                self.mix_traffic(&[0, 1], 300 * big, 500_000 * big, ts);
                if self.r.one_in(4) {
                    self.lead_traffic(&[0, 1], 4, 200_000 * big, false);
                }
                for _ in 0..self.r.below(4) {
                    let (t, e, dur) = (self.t(), self.r.range(0, 1), self.r.log_range(1000, 3_000_000));
                    self.p.op(t, "stall", &[e, dur]);
                }
                for _ in 0..self.r.below(4) {
                    let (t, e, n) = (self.t(), self.r.range(0, 1), self.r.log_range(1, 20));
                    self.p.op(t, "flush", &[e, n]);
                }
                self.p.set("quiet", 1);
            }
            SIZES => {
                self.base(6, 6);
                // Room for large packets.
                for e in 0..2usize {
                    if self.r.one_in(2) {
                        self.al[e] = self.r.log_range(10_000, 3_000_000);
                        let v = self.al[e];
                        self.p.set(&format!("al{e}"), v);
                    }
                    if self.rate[e] < 20_000 {
                        self.rate[e] = 1_000_000;
                        self.p.set(&format!("rate{e}"), 1_000_000);
                    }
                }
                self.set_end(500_000, 10_000_000);
                self.faults(2, false);
                for e in 0..2usize {
                    let cap = self.al[1 - e];
                    let mut left = (self.rate[0].min(self.rate[1]) * 20).min(2_000_000 * big);
                    for _ in 0..self.r.range(1, 25) {
                        let k = self.r.log_range(1, (cap / 1448).max(1));
                        let s = match self.r.below(6) {
                            0 => k * 1448,
                            1 => k * 1448 - 1,
                            2 => k * 1448 + 1,
                            3 => self.r.log_range(8, cap.max(8)),
                            4 => cap,
                            _ => self.r.range(8, 1500),
                        }
                        .clamp(8, cap.max(8));
                        left -= s;
                        if left < 0 {
                            break;
                        }
                        let (t, ch) = (self.t(), self.r.below(4) as i64);
                        let m = self.r.pick(&[RE, RE, RE, PE, UN, TS]) as i64;
                        self.p.op(t, "send", &[e as i64, ch, m, s]);
                    }
                    for s in 0..8 {
                        if self.r.one_in(3) {
                            let t = self.t();
                            self.p.op(t, "send", &[e as i64, 63, RE as i64, s]);
                        }
                    }
                }
                if prop == 4 && self.r.one_in(2) {
                    self.packing = true;
                    self.mix_traffic(&[0, 1], 600, 100_000, true);
                    self.lead_traffic(&[0, 1], 4, 100_000, true);
                }
                if (prop == 4 || prop == 1) && self.r.one_in(2) {
                    let v = self.r.log_range(5_000, 500_000);
                    self.p.set("mitm", v);
                }
                self.settle();
            }
            OUTAGE | WINDOWS => {
                self.base(6, 6);
                if kind == WINDOWS {
                    // Small windows, lost whole.
                    for e in 0..2 {
                        let (pw, fw) = (self.r.range(6, 9), self.r.range(if prop == 12 { 3 } else { 6 }, 9));
                        self.p.set(&format!("pw{e}"), pw).set(&format!("fw{e}"), fw);
                        self.rate[e] = self.rate[e].max(200_000);
                        let v = self.rate[e];
                        self.p.set(&format!("rate{e}"), v);
                    }
                    self.lat = self.lat.min(60_000);
                }
                self.set_end(3_000_000, 60_000_000);
                if prop == 5 {
                    self.p.set("ideal", 1);
                    let l = self.lat;
                    self.p.op(0, "net", &[2, l, 0, 0, 0, 0, 511, 1]);
                } else {
                    self.net0();
                    for _ in 0..self.r.range(1, 4) {
                        let t = self.t();
                        let d = self.r.range(0, 2);
                        let m = self.r.pick(&[7i64, 7, 1, 4, 4, 2, 6, 5]);
                        match self.r.below(4) {
                            0 => {
                                let n = self.r.log_range(1, 5000);
                                self.p.op(t, "burst", &[d & 1, n]);
                            }
                            1 => {
                                let l = self.r.log_range(100, 3_000_000);
                                self.lat = l;
                                self.p.op(t, "net", &[d, l, 0, 0, 0, 0, 511, 1]);
                            }
                            2 => {
                                let dur = self.r.log_range(1_000_000, 60_000_000);
                                self.p.op(t, "cut", &[d, dur, m]);
                            }
                            _ => {
                                let loss = self.r.pick(&[900_000i64, 500_000, 990_000]);
                                let l = self.lat;
                                self.p.op(t, "net", &[d, l, 0, loss, 0, 0, m, 1]);
                            }
                        }
                    }
                }
                let heavy = self.r.range(0, 1) as usize;
                let n = self.r.range(1, 3);
                for _ in 0..n {
                    let m = if prop == 12 && self.r.one_in(3) {
                        TS as i64
                    } else if self.r.one_in(2) {
                        UN as i64
                    } else {
                        self.mode(prop != 5)
                    };
                    let size = self.r.log_range(8, 1448).min(self.al[1 - heavy]).max(8);
                    let cap = (self.rate[heavy].min(self.rate[1 - heavy]) * 20).min(600_000 * big) / n;
                    let count = self.r.log_range(10, 6000).min(cap / size.max(30)).max(1);
                    let t = self.t();
                    let period = if self.r.one_in(2) { 0 } else { self.r.log_range(100, self.end / count + 200) };
                    let ch = self.r.below(3) as i64;
                    self.p.op(t, "bulk", &[heavy as i64, ch, m, size, count, period]);
                }
                if prop == 12 && kind == WINDOWS {
                    // Bursts of TimeSensitive packets, about a frame each, which use up the window of frames.
                    for _ in 0..self.r.range(2, 12) {
                        let t = self.t();
                        let (m, ch) = (self.r.pick(&[TS, TS, UN]) as i64, self.r.below(3) as i64);
                        let size = self.r.pick(&[700, 1000, 1400, 1448, 2000]).min(self.al[1 - heavy]);
                        let count = self.r.log_range(4, 60);
                        self.p.op(t, "bulk", &[heavy as i64, ch, m, size, count, 0]);
                    }
                }
                self.mix_traffic(&[0, 1], 20, 50_000, prop != 5);
                if prop == 5 {
                    self.p.set("quiet", 1);
                } else {
                    self.settle();
                    self.probes();
                }
            }
            PINNED => {
                // The round-trip time changes for good (no frame is lost), then a bulk transfer must finish in good time.
                self.base(12, 12);
                for e in 0..2 {
                    self.rate[e] = self.r.log_range(100_000, 5_000_000);
                    self.al[e] = 1_000_000;
                    let v = self.rate[e];
                    let tick = self.r.log_range(2_000, 30_000);
                    self.p.set(&format!("rate{e}"), v).set(&format!("al{e}"), 1_000_000);
                    self.p.set(&format!("tick{e}"), tick).set(&format!("jit{e}"), 0).set(&format!("skew{e}"), 0);
                    // Occasionally steps happen so often that a step's share of the rate is less than one byte.
                    if self.r.one_in(4) {
                        self.p.set(&format!("tick{e}"), 100).set(&format!("rate{e}"), 2_000);
                        self.rate[e] = 2_000;
                    }
                }
                let a = self.r.log_range(1_000, 60_000);
                let b = if self.r.one_in(4) { self.r.log_range(500, a) } else { self.r.log_range(a, 1_200_000) };
                self.end = 10_000_000;
                self.p.set("end", 10_000_000);
                self.lat = a;
                self.p.op(0, "net", &[2, a, 0, 0, 0, 0, 511, 1]);
                let low = self.rate[0].min(self.rate[1]) < 10_000;
                let per = if low { 1_000_000 } else { self.r.log_range(5_000, 100_000) };
                self.p.op(1000, "bulk", &[0, 0, UN as i64, 300, 4_500_000 / per, per]);
                let t = 5_000_000 + self.r.below(1_000_000);
                self.p.op(t, "net", &[2, b, 0, 0, 0, 0, 511, 1]);
                let bytes = if low { 10_000 } else { 200_000 };
                self.p.op(t + self.r.below(3_000_000), "bulk", &[0, 1, RE as i64, 1000, bytes / 1000, 0]);
                self.lat = b;
                self.p.set("quiet", 1);
                self.p.set("done_by", 10_000_000 + 3_000_000_000);
                self.p.set("limit", 7200);
                self.p.set("max_events", 6_000_000);
            }
            MARATHON => {
                // More packets than a 16-bit lead can span (rarely: than there are packet ids), most of them not Reliable.
                self.base(12, 12);
                let total = if deep && self.r.one_in(12) { 1_100_000 } else { self.r.log_range(66_000, 140_000) };
                let ideal = prop == 5 || self.r.one_in(2);
                for e in 0..2 {
                    self.al[e] = 4_000_000;
                    self.rate[e] = 50_000_000;
                    let tick = self.r.log_range(1_000, 8_000);
                    self.p.set(&format!("al{e}"), 4_000_000).set(&format!("rate{e}"), 50_000_000);
                    self.p.set(&format!("tick{e}"), tick).set(&format!("jit{e}"), 0);
                }
                self.lat = self.r.log_range(100, 5_000);
                self.end = 2_000_000;
                self.p.set("end", 2_000_000).set("max_events", 20_000_000);
                let l = self.lat;
                let loss = if ideal { 0 } else { self.r.log_range(100, 5_000) };
                if prop == 5 {
                    self.p.set("ideal", 1);
                }
                self.p.op(0, "net", &[2, l, 0, loss, 0, 0, 511, 1]);
                let e = self.r.below(2) as i64;
                let chs = self.r.pick(&[1i64, 2, 5]);
                for _ in 0..self.r.range(1, 3) {
                    let (ch, size) = (self.r.below(chs as u64) as i64, self.r.range(8, 64));
                    self.p.op(1000, "send", &[e, ch, RE as i64, size]);
                }
                let mut left = total;
                while left > 0 {
                    let n = self.r.log_range(1_000, 80_000).min(left);
                    left -= n;
                    let m = self.r.pick(&[UN, UN, UN, PE]) as i64;
                    let ch = self.r.below(chs as u64) as i64;
                    self.p.op(2000 + (total - left) as u64 / 100, "bulk", &[e, ch, m, 8, n, 0]);
                }
                for i in 0..self.r.range(5, 40) {
                    let m = self.r.pick(&[UN, RE, RE, PE]) as i64;
                    let (ch, size) = (self.r.below(chs as u64) as i64, self.r.range(8, 3000));
                    self.p.op(1_900_000 + i as u64, "send", &[e, ch, m, size]);
                }
                if prop == 5 {
                    self.p.set("quiet", 1);
                } else {
                    self.settle();
                    self.probes();
                }
            }
            HOSTILE => {
                self.base(12, 12);
                self.set_end(500_000, 20_000_000);
                let mode = if self.r.one_in(2) { 1 } else { 2 };
                self.p.set("hostile", mode);
                if self.r.one_in(4) {
                    // Limits a hostile peer may have announced.
                    let e = self.r.below(2);
                    let v = self.r.pick(&[0i64, 1, 1447, 1449]);
                    self.p.set(&format!("hal{e}"), v);
                    let v = self.r.pick(&[0i64, 1, 22, 23, 100, 1471, u32::MAX as i64]);
                    self.p.set(&format!("rate{e}"), v);
                }
                self.faults(3, true);
                self.mix_traffic(&[0, 1], 60, 100_000, true);
                self.hostile_ops(2, 60);
            }
            FLOOD => {
                self.base(12, 12);
                self.p.set("hostile", 1);
                self.set_end(200_000, 5_000_000);
                self.net0();
                self.mix_traffic(&[0, 1], 30, 50_000, true);
                for _ in 0..self.r.range(1, 3) {
                    let (t, e) = (self.t(), self.r.range(0, 1));
                    let kind = self.r.pick(&[2i64, 2, 4, 5, 8, 8, 9, 9, 10, 10, 17, 1]);
                    let n = self.r.log_range(100, 4000);
                    self.p.op(t, "raw", &[e, kind, n]);
                }
                self.hostile_ops(1, 20);
                if prop == 6 {
                    self.p.set("rxmeasure", 0);
                }
            }
            MEMORY => {
                self.base(12, 12);
                self.p.set("hostile", 1);
                self.set_end(200_000, 4_000_000);
                self.net0();
                // Endpoint 0 only receives, so that every byte it obtains while handling frames is receive state.
                let al = self.r.log_range(1000, 3_000_000);
                self.p.set("al0", al);
                self.p.set("rxmeasure", 0);
                for _ in 0..self.r.range(1, 8) {
                    let t = self.t();
                    let kind = self.r.pick(&[2i64, 8, 8, 8, 9, 9, 10, 17, 4]);
                    let n = self.r.log_range(50, 9000);
                    self.p.op(t, "raw", &[0, kind, n]);
                }
                if self.r.one_in(2) {
                    // No steps in between: everything arrives within one step.
                    let (t, dur) = (0, self.end);
                    self.p.op(t, "stall", &[0, dur]);
                }
                self.hostile_ops(1, 10);
            }
            STREAM => {
                // One endpoint is brought to its minimum rate by an outage; then the network is clean again while
                // its peer keeps it busy acknowledging a stream.
                self.base(12, 12);
                let (a, b) = if self.r.one_in(2) { (0i64, 1i64) } else { (1, 0) };
                self.rate[b as usize] = 1_000_000;
                self.al[b as usize] = 2_000_000;
                self.p.set(&format!("rate{b}"), 1_000_000).set(&format!("al{b}"), 2_000_000);
                self.lat = self.lat.min(100_000);
                let l = self.lat;
                self.p.op(0, "net", &[2, l, 0, 0, 0, 0, 511, 1]);
                self.end = 6_000_000;
                self.mix_traffic(&[a as usize], 12, 12_000, true);
                let from = self.r.range(100_000, 3_000_000) as u64;
                let dur = self.r.log_range(20, 600) * 1_000_000;
                self.p.op(from, "send", &[a, 0, 3, 3000, 3]);
                let m = self.r.pick(&[15i64, 7, 1]);
                self.p.op(from, "cut", &[a, dur, m]);
                self.p.op(from, "cut", &[b, dur, self.r.pick(&[0i64, 15, 4])]);
                self.end = from as i64 + dur;
                let e = self.end;
                self.p.set("end", e).set("stream", 1).set("limit", 15_000).set("max_events", 20_000_000);
                self.settle();
                let size = self.r.log_range(1, 300);
                let period = self.r.log_range(5_000, 500_000);
                self.p.op(e as u64, "bulk", &[b, 62, self.r.pick(&[0i64, 1, 2]), size.max(8), 15_000_000_000 / period, period]);
                self.probes();
            }
            BLACKHOLE => {
                // A few packets, then nothing gets through: their fragments must be sent again and again.
                self.base(12, 12);
                for e in 0..2 {
                    let tick = self.r.log_range(50_000, 200_000);
                    self.p.set(&format!("tick{e}"), tick).set(&format!("jit{e}"), 0).set(&format!("skew{e}"), 0);
                    self.rate[e] = self.rate[e].max(20_000);
                    let v = self.rate[e];
                    self.p.set(&format!("rate{e}"), v);
                }
                self.lat = self.lat.min(200_000);
                let l = self.lat;
                self.p.op(0, "net", &[2, l, 0, 0, 0, 0, 511, 1]);
                self.end = 6_000_000;
                self.mix_traffic(&[0, 1], 12, 12_000, true);
                let from = self.t();
                let dur = self.r.range(200, 1500) * 1_000_000;
                let (d, m) = (self.r.range(0, 2), self.r.pick(&[7i64, 7, 1, 4]));
                self.p.op(from, "cut", &[d, dur, m]);
                self.end = from as i64 + dur;
                let e = self.end;
                self.p.set("end", e).set("retx", 1).set("retx_from", 8_000_000);
                self.settle();
            }
            RATE => {
                self.base(12, 12);
                let e = self.r.range(0, 1) as usize;
                for k in 0..2 {
                    let v = match self.r.below(3) {
                        0 => self.r.log_range(1472, 5_000),
                        1 => self.r.log_range(2_000, 100_000),
                        _ => self.r.log_range(10_000, 5_000_000),
                    };
                    self.rate[k] = v;
                    self.p.set(&format!("rate{k}"), v);
                }
                self.set_end(2_000_000, 20_000_000);
                match self.r.below(3) {
                    0 => self.faults(2, true),
                    _ => {
                        let l = self.lat;
                        self.p.op(0, "net", &[2, l, 0, 0, 0, 0, 511, 1]);
                    }
                }
                // Saturate, with many flushes at arbitrary instants, or long idle periods followed by bursts.
                let size = self.size(self.al[1 - e].min(20_000));
                let rate = self.rate[e];
                let total = (rate * self.end / 1_000_000 + 20_000).min(1_500_000);
                let parts = self.r.range(1, 6);
                for _ in 0..parts {
                    let t = self.t();
                    let m = self.mode(true);
                    let count = (total / parts / size).clamp(1, 3000);
                    self.p.op(t, "bulk", &[e as i64, 0, m, size, count, 0]);
                    for _ in 0..self.r.below(40) {
                        let d = self.r.log_range(1, 300_000) as u64;
                        let n = self.r.range(1, 3);
                        self.p.op(t + d, "flush", &[e as i64, n]);
                    }
                }
                // Data the other way, so that acknowledgements are owed at the same time.
                if self.r.one_in(2) {
                    let o = 1 - e;
                    let s = self.size(self.al[e].min(5_000));
                    let count = ((self.rate[o] * self.end / 1_000_000).min(500_000) / s).clamp(1, 2000);
                    let t = self.t();
                    self.p.op(t, "bulk", &[o as i64, 0, 1, s, count, 0]);
                }
                for _ in 0..self.r.below(4) {
                    let (t, dur) = (self.t(), self.r.log_range(10_000, 3_000_000));
                    self.p.op(t, "stall", &[e as i64, dur]);
                }
                self.p.set(&format!("fl{e}"), 1_000_000);
                if prop == 12 || prop == 20 {
                    self.settle();
                }
            }
            INJECT => {
                self.base(12, 12);
                self.set_end(1_000_000, 20_000_000);
                if self.r.one_in(3) {
                    let l = self.lat;
                    self.p.op(0, "net", &[2, l, 0, 0, 0, 0, 511, 1]);
                } else {
                    self.faults(3, true);
                }
                self.traffic(&[0, 1], 4, 400_000, true);
                self.mix_traffic(&[0, 1], 60, 100_000, true);
                for _ in 0..self.r.log_range(1, 60) {
                    let (t, e, k, s) = (self.t(), self.r.range(0, 1), self.r.range(0, 6), self.r.below(1 << 40) as i64);
                    self.p.op(t, "inject", &[e, k, s]);
                }
                if self.r.one_in(2) {
                    self.settle();
                }
            }
            _ => unreachable!(),
        }
        self.p
    }
}

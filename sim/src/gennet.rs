//! Plan generators for the scenario with a real server and real clients.

use crate::flow::{PE, RE, SMALL, TS, UN};
use crate::plan::Plan;
use crate::rng::Rng;

pub const CHURN: i64 = 20;
pub const SHAKE: i64 = 21;
pub const DISC: i64 = 22;
pub const TIMEOUT: i64 = 23;
pub const IDLE: i64 = 24;
pub const LIMITS: i64 = 25;
pub const SPOOF: i64 = 26;
pub const NHOST: i64 = 27;
pub const TRAFFIC: i64 = 28;
pub const DUEL: i64 = 29;

pub fn name(k: i64) -> Option<&'static str> {
    Some(match k {
        CHURN => "churn",
        SHAKE => "handshake",
        DISC => "disconnect",
        TIMEOUT => "timeout",
        IDLE => "idle",
        LIMITS => "limits",
        SPOOF => "spoof",
        NHOST => "nethostile",
        TRAFFIC => "traffic",
        DUEL => "interference",
        _ => return None,
    })
}

const LOSSES: &[i64] = &[0, 0, 5_000, 20_000, 50_000, 100_000, 200_000, 300_000, 500_000];
/// SYN, SYN-ACK, handshake acknowledgement, handshake error
const HS: i64 = 8 | 16 | 32 | 64;
const DI: i64 = 128 | 256;

/// The keepalive finding: an interval of 300 ms, a timeout of 1.5 s, nothing lost.
pub fn known_plan() -> Plan {
    let mut p = Plan::new("net", 1);
    p.set("slots", 1).set("idle", 1).set("known", 1).set("tick", 20_000).set("s_tick", 20_000);
    for s in ["s_", "c_"] {
        p.set(&format!("{s}ka"), 300).set(&format!("{s}to"), 1_500);
    }
    p.op(0, "net", &[-1, 2, 10_000, 0, 0, 0, 0, 511, 1]);
    p.op(1_000, "conn", &[0, 0]);
    p.set("end", 20_000_000).set("kind", IDLE);
    p.sort();
    p
}

pub struct NetGen {
    p: Plan,
    r: Rng,
    end: i64,
    slots: i64,
    lat: i64,
    srate: i64,
    crate_: i64,
    psize: [i64; 2],
}

impl NetGen {
    pub fn new(seed: u64, r: Rng) -> Self {
        NetGen {
            p: Plan::new("net", seed),
            r,
            end: 5_000_000,
            slots: 1,
            lat: 20_000,
            srate: 2_000_000,
            crate_: 2_000_000,
            psize: [100_000; 2],
        }
    }

    fn t(&mut self) -> u64 {
        self.r.below(self.end as u64)
    }

    fn set_end(&mut self, lo: i64, hi: i64) {
        self.end = self.r.log_range(lo, hi);
    }

    fn slot(&mut self) -> i64 {
        self.r.below(self.slots as u64) as i64
    }

    fn tick(&mut self) -> i64 {
        match self.r.below(8) {
            0 => self.r.log_range(500, 5_000),
            1 => self.r.log_range(50_000, 400_000),
            2 => self.r.log_range(100_000, 3_000_000),
            _ => self.r.log_range(2_000, 50_000),
        }
    }

    fn base(&mut self, slots: i64) {
        self.slots = slots;
        self.p.set("slots", slots);
        for e in 0..=slots {
            let tick = self.tick();
            let jit = if self.r.one_in(2) { 0 } else { self.r.log_range(1, tick * 2) };
            let skew = if self.r.one_in(2) { 0 } else { self.r.range(-100_000, 100_000) };
            if e == 0 {
                self.p.set("s_tick", tick).set("s_jit", jit).set("s_skew", skew);
            } else {
                self.p.set(&format!("tick{}", e - 1), tick).set(&format!("skew{}", e - 1), skew);
                if e == 1 {
                    self.p.set("jit", jit);
                }
            }
        }
        if self.r.one_in(3) {
            let (a, b) = (self.r.range(0, 1_000_000), self.r.range(0, 1_000_000));
            self.p.set("fl", a).set("s_fl", b);
        }
        self.lat = self.r.log_range(100, 400_000);
        // Compatible configurations.
        let size = |r: &mut Rng| match r.below(3) {
            0 => 100_000,
            1 => r.log_range(200, 20_000),
            _ => r.log_range(200, 1_000_000),
        };
        let (sp, cp) = (size(&mut self.r), size(&mut self.r));
        let room = |r: &mut Rng, p: i64| if r.one_in(3) { p } else { p + r.log_range(1, 2_000_000) };
        let (ca, sa) = (room(&mut self.r, sp), room(&mut self.r, cp));
        self.psize = [cp, sp];
        for s in ["s_", "c_"] {
            let rate = |r: &mut Rng| match r.below(4) {
                0 => r.log_range(1472, 50_000),
                1 => r.log_range(20_000, 20_000_000),
                _ => 2_000_000,
            };
            let (a, b) = (rate(&mut self.r), rate(&mut self.r));
            if s == "s_" {
                self.srate = a;
            } else {
                self.crate_ = a;
            }
            self.p.set(&format!("{s}rate"), a).set(&format!("{s}rrate"), b);
            let ka = match self.r.below(5) {
                0 => -1,
                1 => self.r.log_range(1, 20_000),
                _ => 5000,
            };
            let to = match self.r.below(5) {
                0 => self.r.log_range(300, 10_000),
                1 => self.r.log_range(5_000, 100_000),
                _ => 20_000,
            };
            self.p.set(&format!("{s}ka"), ka).set(&format!("{s}to"), to);
        }
        self.srate = self.srate.min(self.p.get("c_rrate", 0));
        self.crate_ = self.crate_.min(self.p.get("s_rrate", 0));
        self.p.set("s_psize", sp).set("c_alloc", ca).set("c_psize", cp).set("s_alloc", sa);
        if self.r.one_in(2) {
            self.p.set("errs", 1);
        }
    }

    /// Timeouts long enough that faults short of an outage leave the connection alone.
    fn patient(&mut self) {
        for s in ["s_", "c_"] {
            let to = self.r.log_range(60_000, 1_000_000);
            self.p.set(&format!("{s}to"), to).set(&format!("{s}ka"), 5000);
        }
    }

    fn lat_jit(&mut self) -> (i64, i64, i64) {
        let l = self.lat;
        let j = match self.r.below(3) {
            0 => 0,
            1 => self.r.log_range(1, l.max(2)),
            _ => self.r.log_range(1, l.max(2) * 5),
        };
        (l, j, self.r.below(2) as i64)
    }

    fn net0(&mut self) {
        let (l, j, f) = self.lat_jit();
        self.p.op(0, "net", &[-1, 2, l, j, 0, 0, 0, 511, f]);
    }

    /// In order, nothing lost.
    fn clean0(&mut self) {
        let l = self.lat;
        let j = if self.r.one_in(2) { 0 } else { self.r.log_range(1, l + 2) };
        self.p.op(0, "net", &[-1, 2, l, j, 0, 0, 0, 511, 1]);
    }

    fn faults(&mut self, n: u64) {
        self.net0();
        for _ in 0..self.r.below(n) + 1 {
            if self.r.one_in(4) {
                self.lat = self.r.log_range(100, 2_000_000);
            }
            let (l, j, f) = self.lat_jit();
            let (loss, dup) = (self.r.pick(LOSSES), self.r.pick(&[0i64, 0, 10_000, 100_000, 300_000]));
            let corrupt = self.r.pick(&[0i64, 0, 0, 10_000, 100_000]);
            let mask = self.r.pick(&[511i64, 511, 511, 1, 4, 2, 6, HS, DI, HS | DI, 128, 256]);
            let (s, d) = (self.r.range(-1, self.slots - 1), self.r.pick(&[2i64, 2, 0, 1]));
            let t = if self.r.one_in(3) { 0 } else { self.t() };
            self.p.op(t, "net", &[s, d, l, j, loss, dup, corrupt, mask, f]);
        }
        for _ in 0..self.r.below(n + 1) {
            let t = self.t();
            let s = self.r.range(-1, self.slots - 1);
            match self.r.below(8) {
                0 | 1 => {
                    let (d, dur) = (self.r.range(0, 2), self.r.log_range(10_000, 30_000_000));
                    let m = self.r.pick(&[511i64, 511, 7, 1, 4, 2, HS, DI, 16, 32, 128, 256]);
                    self.p.op(t, "cut", &[s, d, dur, m]);
                }
                2 => {
                    let dur = self.r.log_range(10_000, 10_000_000);
                    self.p.op(t, "stall", &[s, dur]);
                }
                3 => {
                    let i = self.r.log_range(500, 1_000_000);
                    let j = self.r.log_range(1, i);
                    self.p.op(t, "cadence", &[s, i, j]);
                }
                4 => {
                    let dur = self.r.log_range(1_000, 5_000_000);
                    self.p.op(t, "sendfail", &[s, dur]);
                }
                5 => self.p.op(t, "recverr", &[s]),
                6 => {
                    let n = self.r.log_range(1, 20);
                    self.p.op(t, "flush", &[s, n]);
                }
                _ => {
                    let n = self.r.log_range(1, 30);
                    self.p.op(t, "burst", &[s, 2, n]);
                }
            }
        }
    }

    fn mode(&mut self) -> i64 {
        self.r.pick(&[TS, UN, UN, PE, PE, RE, RE, RE]) as i64
    }

    fn size(&mut self, cap: i64) -> i64 {
        let s = match self.r.below(7) {
            0 => self.r.range(8, 64),
            1 => self.r.range(64, 1448),
            2 => self.r.pick(&[1447, 1448, 1449, 2895, 2896, 2897]),
            3 => self.r.log_range(1448, 30_000),
            4 => cap,
            _ => self.r.log_range(8, 3000),
        };
        s.clamp(8, cap.max(8))
    }

    /// Packets from one side of a slot submitted from `t` on.
    fn send(&mut self, side: i64, slot: i64, t: u64, max_packets: i64, max_bytes: i64) {
        let n = self.r.log_range(1, max_packets);
        let rate = if side == 0 { self.crate_ } else { self.srate };
        let mut left = rate.saturating_mul(10).min(max_bytes);
        let cap = self.psize[side as usize].min(100_000);
        let channels = self.r.pick(&[1u64, 2, 3, 60]);
        let mut t = t;
        let burst = self.r.one_in(2);
        let only = if self.r.one_in(4) { RE as i64 } else { -1 };
        for _ in 0..n {
            let size = self.size(cap);
            left -= size.max(30);
            if left < 0 {
                break;
            }
            if !burst && self.r.one_in(3) {
                t += self.r.log_range(1, 100_000) as u64;
            }
            let (ch, m) = (self.r.below(channels) as i64, if only < 0 { self.mode() } else { only });
            if self.r.one_in(25) {
                let n = self.r.pick(&[0i64, 0, 1, 7]);
                self.p.op(t, "send", &[side, slot, SMALL as i64, RE as i64, n]);
            }
            self.p.op(t, "send", &[side, slot, ch, m, size]);
        }
    }

    fn settle(&mut self) {
        self.p.set("quiet", 1);
    }

    /// One way or another to end a connection.
    fn ending(&mut self, slot: i64, t: u64, crash: bool) {
        let side = self.r.range(0, 1);
        match self.r.below(if crash { 9 } else { 6 }) {
            0 | 1 | 2 => self.p.op(t, "disc", &[side, slot]),
            3 | 4 => self.p.op(t, "discnow", &[side, slot]),
            5 => {
                // Both sides, about the same time.
                let d = self.r.log_range(1, 3_000_000) as u64;
                let (a, b) = (self.r.pick(&["disc", "discnow"]), self.r.pick(&["disc", "discnow"]));
                self.p.op(t, a, &[side, slot]);
                self.p.op(t + d, b, &[1 - side, slot]);
            }
            6 => self.p.op(t, "crash", &[slot]),
            7 => self.p.op(t, "srvdrop", &[slot]),
            _ => {
                let dur = self.r.log_range(1_000_000, 60_000_000);
                let d = self.r.range(0, 2);
                self.p.op(t, "cut", &[slot, d, dur, 511]);
            }
        }
    }

    /// The application of a slot comes and goes.
    fn lives(&mut self, slot: i64, crash: bool, traffic: i64) {
        let mut t = if self.r.one_in(2) { self.r.below(50_000) } else { self.t() };
        for _ in 0..1 + self.r.below(4) {
            let same = self.r.below(2) as i64;
            self.p.op(t, "conn", &[slot, same]);
            let rest = self.end as u64 - t.min(self.end as u64 - 1);
            let life = if self.r.one_in(4) { self.r.log_range(1, 300_000) as u64 } else { self.r.below(rest) };
            for side in 0..2 {
                for _ in 0..self.r.below(3) {
                    let d = if self.r.one_in(3) { 0 } else { self.r.below(life + 1) };
                    self.send(side, slot, t + d, 30, traffic);
                }
            }
            if self.r.one_in(4) {
                let d = self.r.below(life + 1);
                self.p.op(t + d, "clone", &[slot, 0]);
                for w in 1..5 {
                    let d = self.r.below(2 * life + 30_000_000);
                    self.p.op(t + d, "clone", &[slot, w]);
                }
            }
            let e = t + life;
            if self.r.one_in(5) {
                break;
            }
            self.ending(slot, e, crash);
            if self.r.one_in(4) {
                // Packets handed over after the request.
                let side = self.r.range(0, 1);
                let d = self.r.log_range(1, 1_000_000) as u64;
                self.send(side, slot, e + d, 5, 5000);
            }
            if self.r.one_in(4) {
                let d = self.r.log_range(1, 30_000_000) as u64;
                self.ending(slot, e + d, crash);
            }
            // The next life begins at once, or when the previous one is long over.
            let pause = self.r.log_range(1, 40_000_000) as u64;
            t = e + pause;
            if t >= self.end as u64 {
                break;
            }
            self.p.op(t, "crash", &[slot]);
        }
    }

    fn overrides(&mut self, wild: bool) -> [i64; 6] {
        // rate, receive rate, packet size, receive allocation, keepalive, timeout
        let mut o = [-2i64; 6];
        let (sp, sa) = (self.psize[1], self.p.get("s_alloc", 1_000_000));
        for (i, v) in o.iter_mut().enumerate() {
            if !self.r.one_in(3) {
                continue;
            }
            *v = match i {
                0 => self.r.log_range(1472, 5_000_000_000),
                1 => self.r.log_range(if wild { 1 } else { 1472 }, 5_000_000_000),
                // straddling compatibility
                2 => (sa + self.r.pick(&[-1i64, 0, 1, -100, 100, -sa / 2])).max(8),
                3 => (sp + self.r.pick(&[-1i64, 0, 1, -100, 100, 5_000_000_000])).max(1),
                4 => self.r.pick(&[-1i64, 0, 1, 1000, 5000, 60_000]),
                _ => self.r.pick(&[0i64, 1, 100, 3000, 20_000, i64::MAX]),
            };
        }
        o[2] = o[2].min(90_000_000);
        if !wild {
            o[4] = -2;
            o[5] = -2;
        }
        o
    }

    pub fn build(mut self, prop: u8, kind: i64, deep: bool) -> Plan {
        let big = if deep { 3 } else { 1 };
        match kind {
            CHURN => {
                let n = self.r.range(1, 4);
                self.base(n);
                self.set_end(3_000_000, 60_000_000 * big);
                if self.r.one_in(4) {
                    self.net0();
                } else {
                    self.faults(6);
                }
                if self.r.one_in(3) {
                    self.patient();
                }
                for s in 0..n {
                    self.lives(s, true, 60_000);
                }
                for _ in 0..self.r.below(2) {
                    if self.r.one_in(2) {
                        let (t, d) = (self.t(), self.r.log_range(1_000, 20_000_000));
                        self.p.op(t, "restart", &[d]);
                    }
                }
                if self.r.one_in(4) {
                    let (a, b) = (self.r.range(1, n + 1), self.r.range(1, n + 1));
                    self.p.set("max_total", a).set("max_active", b);
                }
                self.settle();
            }
            SHAKE => {
                let n = self.r.range(1, 6);
                self.base(n);
                self.set_end(500_000, 50_000_000);
                self.net0();
                // Handshake frames suffer most.
                for _ in 0..self.r.below(5) {
                    let t = if self.r.one_in(2) { 0 } else { self.t() };
                    let (s, d) = (self.r.range(-1, n - 1), self.r.pick(&[2i64, 0, 1]));
                    let l = self.r.log_range(100, 3_000_000);
                    let j = self.r.log_range(1, 30_000_000);
                    let (loss, dup) = (self.r.pick(&[0i64, 100_000, 500_000, 900_000]), self.r.pick(&[0i64, 100_000, 500_000, 900_000]));
                    let corrupt = self.r.pick(&[0i64, 0, 200_000]);
                    let mask = self.r.pick(&[511i64, HS, 8, 16, 32, 64, 8 | 32]);
                    self.p.op(t, "net", &[s, d, l, j, loss, dup, corrupt, mask, 0]);
                    if self.r.one_in(2) {
                        let (t, dur) = (self.t(), self.r.log_range(100_000, 30_000_000));
                        self.p.op(t, "cut", &[s, d, dur, mask]);
                    }
                }
                if self.r.one_in(3) {
                    let (t, d) = (self.r.range(-1, n - 1), self.r.log_range(100_000, 25_000_000));
                    let at = self.t();
                    self.p.op(at, "stall", &[t, d]);
                }
                let spoof = self.r.one_in(4);
                if spoof {
                    self.p.set("spoof", 1);
                }
                for s in 0..n {
                    let mut t = self.r.below(1_000_000.min(self.end as u64));
                    for _ in 0..1 + self.r.below(3) {
                        let same = self.r.below(2) as i64;
                        let o = if self.r.one_in(2) { self.overrides(true) } else { [-2; 6] };
                        let mut a = vec![s, same];
                        a.extend(o);
                        self.p.op(t, "conn", &a);
                        for side in 0..2 {
                            if self.r.one_in(2) {
                                let d = self.r.log_range(1, 3_000_000) as u64;
                                self.send(side, s, t + d, 5, 20_000);
                            }
                        }
                        let life = self.r.log_range(1_000, 40_000_000) as u64;
                        if self.r.one_in(3) {
                            self.ending(s, t + life, true);
                        }
                        t += life + if self.r.one_in(2) { 0 } else { self.r.log_range(1, 25_000_000) as u64 };
                        if t >= self.end as u64 {
                            break;
                        }
                        self.p.op(t, "crash", &[s]);
                    }
                    // Forgeries: wrong nonces always; right ones only where that is declared.
                    for _ in 0..self.r.below(6) {
                        let (t, n) = (self.t(), self.r.log_range(1, 10));
                        let period = self.r.log_range(1, 1_000_000);
                        let (id, what) = match self.r.below(8) {
                            0 => (200 + s, 15),
                            1 => (200 + s, 16),
                            2 => (100 + s, 6),
                            3 => (100 + s, self.r.pick(&[1i64, 2, 9, 11])),
                            4 => (200 + s, self.r.pick(&[1i64, 9, 11, 0])),
                            5 if spoof => (100 + s, self.r.pick(&[0i64, 5, 3, 4, 14])),
                            6 if spoof => (200 + s, 13),
                            _ => (s, self.r.pick(&[0i64, 2, 3, 4, 5, 6])),
                        };
                        self.p.op(t, "raw", &[id, what, n, period]);
                    }
                }
                if self.r.one_in(4) {
                    let (t, d) = (self.t(), self.r.log_range(1_000, 20_000_000));
                    self.p.op(t, "restart", &[d]);
                }
                if self.r.one_in(4) {
                    let (a, b) = (self.r.range(1, n), self.r.range(1, n));
                    self.p.set("max_total", a).set("max_active", b);
                }
                self.settle();
            }
            DISC => {
                let n = self.r.range(1, 2);
                self.base(n);
                self.set_end(1_000_000, 20_000_000);
                if self.r.one_in(2) {
                    self.patient();
                }
                if self.r.one_in(3) {
                    self.clean0();
                } else {
                    self.faults(4);
                }
                for s in 0..n {
                    let t0 = self.r.below(100_000);
                    self.p.op(t0, "conn", &[s, 0]);
                    for side in 0..2 {
                        for _ in 0..self.r.below(3) {
                            let d = self.t();
                            self.send(side, s, t0 + d, 60, 200_000);
                        }
                    }
                    let t = self.t();
                    let side = self.r.range(0, 1);
                    // A burst right before the request.
                    if self.r.one_in(2) {
                        self.send(side, s, t, 60, 300_000);
                        self.p.op(t + 20_000, "disc", &[side, s]);
                    }
                    if self.r.one_in(2) {
                        self.send(1 - side, s, t, 60, 300_000);
                    }
                    if self.r.one_in(3) {
                        // The last packets before the request are tiny.
                        for side in 0..2 {
                            for _ in 0..1 + self.r.below(3) {
                                let k = self.r.pick(&[0i64, 0, 0, 1, 7]);
                                let d = self.r.pick(&[0u64, 0, 1, 30_000]);
                                self.p.op(t.saturating_sub(d), "send", &[side, s, SMALL as i64, RE as i64, k]);
                            }
                        }
                    }
                    self.ending(s, t, false);
                    if self.r.one_in(3) {
                        let d = self.r.log_range(1, 20_000_000) as u64;
                        self.p.op(t + d, self.r.pick(&["disc", "discnow"]), &[self.r.range(0, 1), s]);
                    }
                    if self.r.one_in(3) {
                        // The network fails around the request.
                        let d = self.r.log_range(1, 5_000_000) as u64;
                        let at = if self.r.one_in(2) { t + d } else { t.saturating_sub(d) };
                        let (dir, dur) = (self.r.range(0, 2), self.r.log_range(100_000, 60_000_000));
                        let m = self.r.pick(&[511i64, 511, DI, 128, 256, 4, 1]);
                        self.p.op(at, "cut", &[s, dir, dur, m]);
                    }
                    if self.r.one_in(4) {
                        // Both sides ask at about the same time, and one direction fails for a while.
                        let first = self.r.range(0, 1);
                        let d = self.r.log_range(1, 400_000) as u64;
                        self.p.op(t, "disc", &[first, s]);
                        self.p.op(t + d, "disc", &[1 - first, s]);
                        let (dir, dur) = (self.r.range(0, 1), self.r.log_range(50_000, 18_000_000));
                        self.p.op(t.saturating_sub(1), "cut", &[s, dir, dur, 511]);
                    }
                    if self.r.one_in(8) {
                        let d = self.r.log_range(1, 5_000_000) as u64;
                        let what = self.r.pick(&["crash", "srvdrop"]);
                        self.p.op(t + d, what, &[s]);
                    }
                    if self.r.one_in(3) {
                        self.p.op(t, "clone", &[s, 0]);
                        for w in 1..5 {
                            let d = self.r.log_range(1, 60_000_000) as u64;
                            self.p.op(t + d, "clone", &[s, w]);
                        }
                    }
                }
                self.settle();
            }
            TIMEOUT => {
                let n = self.r.range(1, 2);
                self.base(n);
                self.set_end(2_000_000, 40_000_000);
                for s in ["s_", "c_"] {
                    let to = match self.r.below(6) {
                        0 => self.r.log_range(1, 300),
                        1 => self.r.log_range(20_000, 300_000),
                        _ => self.r.log_range(300, 30_000),
                    };
                    let ka = match self.r.below(3) {
                        0 => -1,
                        1 => self.r.log_range(1, 5_000),
                        _ => 5000,
                    };
                    self.p.set(&format!("{s}to"), to).set(&format!("{s}ka"), ka);
                }
                self.net0();
                for s in 0..n {
                    let t0 = self.r.below(1_000_000);
                    self.p.op(t0, "conn", &[s, 0]);
                    // Some transmissions of the handshake are lost.
                    if self.r.one_in(2) {
                        let (d, m) = (self.r.range(0, 2), self.r.pick(&[8i64, 16, 32, HS, 511]));
                        let dur = self.r.range(0, 24_000_000);
                        self.p.op(t0, "cut", &[s, d, dur, m]);
                    }
                    for side in 0..2 {
                        if self.r.one_in(2) {
                            let t = t0 + self.t();
                            self.send(side, s, t, 20, 40_000);
                        }
                    }
                    // Silence, from one side or both, of whatever length, now and again.
                    let mut t = t0 + self.r.below(3_000_000);
                    for _ in 0..self.r.below(5) {
                        let (d, dur) = (self.r.range(0, 2), self.r.log_range(10_000, 30_000_000));
                        let m = self.r.pick(&[511i64, 511, 511, 1, 2, 4, 7]);
                        self.p.op(t, "cut", &[s, d, dur, m]);
                        t += dur as u64 + self.r.log_range(1, 3_000_000) as u64;
                    }
                    if self.r.one_in(2) {
                        let (who, t, dur) = (self.r.range(-1, n - 1), self.t(), self.r.log_range(10_000, 30_000_000));
                        self.p.op(t, "stall", &[who, dur]);
                    }
                    if self.r.one_in(3) {
                        let (who, t) = (self.r.range(-1, n - 1), self.t());
                        let i = self.r.log_range(1_000, 5_000_000);
                        self.p.op(t, "cadence", &[who, i, 0]);
                    }
                    if self.r.one_in(3) {
                        let t = self.t();
                        self.ending(s, t, true);
                    }
                    // Frames which are not from the peer must not keep it alive.
                    if self.r.one_in(4) {
                        let (t, n) = (self.t(), self.r.log_range(1, 300));
                        let what = self.r.pick(&[9i64, 1, 11]);
                        let id = self.r.pick(&[100i64, 200]) + s;
                        let period = self.r.log_range(1_000, 500_000);
                        self.p.op(t, "raw", &[id, what, n, period]);
                    }
                }
                self.settle();
            }
            IDLE => {
                let n = self.r.range(1, 3);
                self.base(n);
                self.p.set("idle", 1);
                let lat = self.r.log_range(100, 300_000);
                self.lat = lat;
                let jit = if self.r.one_in(2) { 0 } else { self.r.log_range(1, lat + 2) };
                self.p.op(0, "net", &[-1, 2, lat, jit, 0, 0, 0, 511, 1]);
                let mut slow = 0;
                for e in 0..=n {
                    let tick = self.r.log_range(1_000, 400_000);
                    slow = slow.max(tick);
                    if e == 0 {
                        self.p.set("s_tick", tick).set("s_jit", 0);
                    } else {
                        self.p.set(&format!("tick{}", e - 1), tick);
                    }
                }
                self.p.set("jit", 0).set("fl", 0).set("s_fl", 0);
                // Far above the slowest cadence at which keepalive frames can leave.
                let mut most = 0;
                for s in ["s_", "c_"] {
                    let ka = if self.r.one_in(6) { 0 } else { self.r.log_range(1, 20_000) };
                    most = most.max(ka);
                    self.p.set(&format!("{s}ka"), ka);
                }
                let floor = 4 * (2 * (lat + jit) + 4 * slow) / 1000;
                for s in ["s_", "c_"] {
                    let to = most.max(2_000).max(floor) + floor + self.r.log_range(200, 20_000);
                    self.p.set(&format!("{s}to"), to);
                    let rate = self.r.log_range(1472, 2_000_000);
                    self.p.set(&format!("{s}rate"), rate.max(5_000)).set(&format!("{s}rrate"), 1_000_000);
                }
                self.end = self.r.log_range(30_000_000, 900_000_000 * big);
                for s in 0..n {
                    let t = self.r.below(5_000_000);
                    self.p.op(t, "conn", &[s, 0]);
                    if self.r.one_in(2) {
                        let (t2, side) = (t + self.t() / 2, self.r.range(0, 1));
                        self.send(side, s, t2, 20, 20_000);
                    }
                }
            }
            LIMITS => {
                let n = self.r.range(2, 14);
                self.base(n);
                self.set_end(500_000, 60_000_000);
                let (a, b) = (self.r.range(1, n + 2), self.r.range(1, n + 2));
                self.p.set("max_total", a).set("max_active", b);
                if self.r.one_in(2) {
                    self.net0();
                } else {
                    self.faults(4);
                }
                if self.r.one_in(2) {
                    // Handshakes overlap: every acknowledgement is late.
                    let l = self.r.log_range(1_000, 5_000_000);
                    let j = self.r.log_range(1, l);
                    self.p.op(0, "net", &[-1, self.r.range(0, 2), l, j, 0, 0, 0, 511, 0]);
                }
                if self.r.one_in(3) {
                    // Connections which fall silent end soon.
                    let to = self.r.log_range(300, 6_000);
                    self.p.set("s_to", to).set("s_ka", self.r.log_range(1, 300));
                }
                let together = self.r.one_in(2);
                for s in 0..n {
                    if together {
                        let t = self.r.below(20_000);
                        self.p.op(t, "conn", &[s, 0]);
                        if self.r.one_in(2) {
                            let t = self.t();
                            self.ending(s, t, true);
                            if self.r.one_in(2) {
                                let t2 = t + self.r.log_range(1, 30_000_000) as u64;
                                self.p.op(t2, "crash", &[s]);
                                self.p.op(t2, "conn", &[s, self.r.range(0, 1)]);
                            }
                        }
                    } else {
                        self.lives(s, true, 5_000);
                    }
                }
                // Requests which never complete their handshake take up room for a while.
                for _ in 0..self.r.below(6) {
                    let (t, id) = (self.t(), self.r.range(0, 30));
                    let what = self.r.pick(&[0i64, 0, 0, 5, 2]);
                    self.p.op(t, "raw", &[id, what, self.r.range(1, 3), self.r.log_range(1, 1_000_000)]);
                }
                if self.r.one_in(6) {
                    let (t, d) = (self.t(), self.r.log_range(1_000, 20_000_000));
                    self.p.op(t, "restart", &[d]);
                }
                self.settle();
            }
            SPOOF => {
                let n = self.r.range(1, 3);
                self.base(n);
                self.p.set("spoof", 1);
                self.set_end(500_000, 70_000_000);
                if self.r.one_in(3) {
                    let (a, b) = (self.r.range(1, 6), self.r.range(1, 6));
                    self.p.set("max_total", a).set("max_active", b);
                }
                self.net0();
                if self.r.one_in(2) {
                    self.faults(3);
                }
                for s in 0..n {
                    if self.r.one_in(2) {
                        self.lives(s, true, 5_000);
                    }
                }
                let who = self.r.range(1, 12);
                for _ in 0..self.r.log_range(1, 60) {
                    let id = match self.r.below(8) {
                        0 => 100 + self.slot(),
                        _ => self.r.range(0, who),
                    };
                    let what = self.r.pick(&[0i64, 0, 0, 1, 1, 2, 3, 4, 6, 6, 7, 8, 9, 10, 11, 12, 14, 14]);
                    let t = if self.r.one_in(3) { self.r.below(2_000) } else { self.t() };
                    let c = self.r.log_range(1, 60);
                    let period = match self.r.below(3) {
                        0 => 1,
                        1 => self.r.log_range(1, 100_000),
                        _ => self.r.log_range(100_000, 10_000_000),
                    };
                    let arg = if what == 1 && self.r.one_in(2) { self.r.pick(&[18i64, 19, 20, 30, 1467, 1466, 1465, 1460, 800]) } else { 0 };
                    self.p.op(t, "raw", &[id, what, c, period, arg]);
                }
                // Many small frames may cost more to answer than a single large one.
                if self.r.one_in(2) {
                    for _ in 0..self.r.range(1, 3) {
                        let (id, t, kind) = (self.r.range(0, who), self.t(), self.r.below(10) as i64);
                        let gap = self.r.log_range(1, 1_000_000) as u64;
                        let (c, period) = (self.r.log_range(50, 1_000), self.r.log_range(1, 20_000));
                        if !self.r.one_in(4) {
                            self.p.op(t, "raw", &[id, 0, 1, 1, 0]);
                        }
                        self.p.op(t + gap, "raw", &[id, 17, c, period, kind]);
                    }
                }
                // Some attackers complete their handshake.
                if self.r.one_in(2) {
                    for _ in 0..self.r.below(4) {
                        let (id, t) = (self.r.range(0, who), self.t());
                        self.p.op(t, "raw", &[id, 5, 1, 1]);
                    }
                }
            }
            NHOST => {
                let n = self.r.range(1, 3);
                self.base(n);
                self.p.set("hostile", 1).set("spoof", 1);
                self.patient();
                self.set_end(300_000, 15_000_000);
                self.net0();
                if self.r.one_in(3) {
                    self.faults(2);
                }
                let victim_only = self.r.below(n as u64) as i64;
                for s in 0..n {
                    if self.r.one_in(2) {
                        self.p.op(self.r.below(20_000), "conn", &[s, 0]);
                        for side in 0..2 {
                            let t = self.t();
                            self.send(side, s, t, 15, 40_000);
                        }
                    } else {
                        self.lives(s, true, 20_000);
                    }
                }
                for _ in 0..self.r.log_range(1, 40) {
                    let s = if self.r.one_in(2) { victim_only } else { self.slot() };
                    if n > 1 && s == (victim_only + 1) % n {
                        // One connection is left alone and must keep working.
                        continue;
                    }
                    let (side, t) = (self.r.range(0, 1), self.t());
                    let kind = if self.r.one_in(3) { -1 } else { self.r.range(0, 18) };
                    let c = self.r.log_range(1, 200);
                    let period = if self.r.one_in(2) { 1 } else { self.r.log_range(1, 50_000) };
                    self.p.op(t, "hostile", &[side, s, kind, c, period]);
                }
                for _ in 0..self.r.below(6) {
                    let (id, what, c) = (self.r.range(0, 6), self.r.range(0, 14), self.r.log_range(1, 50));
                    let t = self.t();
                    self.p.op(t, "raw", &[id, what, c, self.r.log_range(1, 200_000)]);
                }
                for s in 0..n {
                    for side in 0..2 {
                        self.p.op(self.end as u64 + 1, "probe", &[side, s]);
                    }
                }
                self.settle();
            }
            DUEL => {
                // Interference in each phase of a handshake, then enough traffic to tell which limits were agreed.
                let n = self.r.range(1, 2);
                self.base(n);
                self.patient();
                self.p.set("spoof", 1);
                self.set_end(500_000, 20_000_000);
                let lat = self.r.log_range(1_000, 1_000_000);
                let j = if self.r.one_in(2) { 0 } else { self.r.log_range(1, lat) };
                self.p.op(0, "net", &[-1, 2, lat, j, 0, 0, 0, 511, self.r.range(0, 1)]);
                for s in 0..n {
                    let mut t = self.r.below(50_000);
                    let lives = 1 + self.r.below(3);
                    for l in 0..lives {
                        // Limits worth telling apart.
                        let mut a = vec![s, if l == 0 { 0 } else { self.r.range(0, 3).min(1) }];
                        let mut o = [-2i64; 6];
                        if self.r.one_in(2) {
                            o[1] = self.r.log_range(1472, 100_000);
                        }
                        if self.r.one_in(2) {
                            o[3] = self.psize[1] + self.r.log_range(1, 20_000);
                        }
                        a.extend(o);
                        self.p.op(t, "conn", &a);
                        // The frames around the handshake.
                        for _ in 0..self.r.below(4) {
                            let d = self.r.log_range(1, lat * 6) as u64;
                            let (id, what) = match self.r.below(8) {
                                0..=3 => (100 + s, 0),
                                4 => (100 + s, self.r.pick(&[2i64, 3, 4, 6, 14])),
                                5 => (200 + s, 15),
                                6 => (200 + s, 16),
                                _ => (200 + s, self.r.pick(&[0i64, 5, 6, 13])),
                            };
                            let (c, p) = (self.r.range(1, 3), self.r.log_range(1, lat * 4));
                            self.p.op(t + d, "raw", &[id, what, c, p]);
                        }
                        if self.r.one_in(2) {
                            // One step of the handshake fails for a time.
                            let m = self.r.pick(&[8i64, 16, 32, 32, HS]);
                            let (d, dur) = (self.r.log_range(1, lat * 4) as u64 - 1, self.r.log_range(lat, 21_000_000));
                            self.p.op(t + d, "cut", &[s, 2, dur, m]);
                        } else if self.r.one_in(3) {
                            let m = self.r.pick(&[8i64, 16, 32, HS]);
                            let (l2, j2) = (self.r.log_range(1_000, 3_000_000), self.r.log_range(1, 10_000_000));
                            let (loss, dup) = (self.r.pick(&[0i64, 300_000, 700_000]), self.r.pick(&[0i64, 500_000, 900_000]));
                            self.p.op(t, "net", &[s, 2, l2, j2, loss, dup, 0, m, 0]);
                        }
                        for side in 0..2 {
                            if self.r.one_in(2) {
                                // Before or after the connection exists.
                                let d = self.r.log_range(1, lat * 10) as u64;
                                self.send(side, s, t + d, 100, 400_000);
                            }
                        }
                        if l + 1 < lives {
                            // The next life may meet what is left of this one.
                            t += self.r.log_range(1_000, lat * 20) as u64;
                            if self.r.one_in(3) {
                                let w = self.r.pick(&["disc", "discnow"]);
                                self.p.op(t, w, &[self.r.range(0, 1), s]);
                                t += self.r.log_range(1, 23_000_000) as u64;
                            }
                            self.p.op(t, "crash", &[s]);
                            t += self.r.log_range(1, lat * 4) as u64;
                        }
                    }
                    for side in 0..2 {
                        let d = self.r.log_range(lat, lat * 10 + 5_000_000) as u64;
                        self.send(side, s, t + d, 200, 600_000);
                    }
                }
                self.settle();
            }
            _ => {
                // TRAFFIC
                let n = self.r.range(1, 3);
                self.base(n);
                self.patient();
                self.set_end(500_000, 10_000_000);
                let ideal = prop == 5;
                if ideal {
                    self.p.set("ideal", 1);
                    self.clean0();
                } else if self.r.one_in(2) {
                    self.clean0();
                } else {
                    self.faults(3);
                }
                for s in 0..n {
                    let t0 = self.r.below(50_000);
                    let mut a = vec![s, 0];
                    let o = if self.r.one_in(2) {
                        let mut o = self.overrides(false);
                        // Compatible ones only.
                        o[2] = -2;
                        o[3] = -2;
                        o
                    } else {
                        [-2; 6]
                    };
                    a.extend(o);
                    self.p.op(t0, "conn", &a);
                    for side in 0..2 {
                        // Some of it before the connection exists.
                        if self.r.one_in(2) {
                            self.send(side, s, t0, 20, 30_000);
                        }
                        for _ in 0..self.r.below(4) {
                            let t = t0 + self.t();
                            self.send(side, s, t, 200, 300_000);
                        }
                    }
                }
                self.settle();
            }
        }
        let e = self.end;
        self.p.set("end", e);
        self.p
    }
}

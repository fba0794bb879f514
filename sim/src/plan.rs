//! A plan is the complete, explicit description of one simulated execution: parameters, timed operations and
//! (once recorded) the fate of every frame that was not simply delivered.  A run is a pure function of a plan.

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    /// Simulated time in microseconds.
    pub t: u64,
    pub k: &'static str,
    pub a: Vec<i64>,
}

/// What happens to the n-th frame sent on a link.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Fate {
    pub drop: bool,
    /// Total delay of the frame in microseconds, if not the link's base latency.
    pub delay: Option<u64>,
    /// Delays of additional copies.
    pub dups: Vec<u64>,
    /// Bit positions flipped in transit.
    pub flips: Vec<u32>,
}

impl Fate {
    pub fn is_plain(&self) -> bool {
        *self == Fate::default()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Plan {
    pub scen: String,
    pub seed: u64,
    pub p: BTreeMap<String, i64>,
    pub ops: Vec<Op>,
    /// None: drawn from the seed according to the link settings in force. Some: exactly these, others are plain.
    pub fates: Option<BTreeMap<(u32, u32), Fate>>,
}

pub const OPS: &[&str] = &[
    "send", "send2", "net", "burst", "cadence", "stall", "flush", "inject", "mark", "conn", "disc", "discnow", "drop", "crash",
    "restart", "raw", "hostile", "probe", "bulk", "srvdrop", "clone", "fb", "adv", "sent", "hold", "cut", "fgroup", "sendfail", "recverr", "skip",
];

pub fn op_name(s: &str) -> Option<&'static str> {
    OPS.iter().copied().find(|o| *o == s)
}

impl Plan {
    pub fn new(scen: &str, seed: u64) -> Self {
        Plan { scen: scen.into(), seed, p: BTreeMap::new(), ops: Vec::new(), fates: None }
    }

    pub fn set(&mut self, k: &str, v: i64) -> &mut Self {
        self.p.insert(k.into(), v);
        self
    }

    pub fn get(&self, k: &str, default: i64) -> i64 {
        self.p.get(k).copied().unwrap_or(default)
    }

    pub fn op(&mut self, t: u64, k: &'static str, a: &[i64]) {
        debug_assert!(OPS.contains(&k), "{k}");
        self.ops.push(Op { t, k, a: a.to_vec() });
    }

    pub fn sort(&mut self) {
        self.ops.sort_by_key(|o| o.t);
    }

    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "scen {}", self.scen);
        let _ = writeln!(s, "seed {}", self.seed);
        for (k, v) in &self.p {
            let _ = writeln!(s, "param {k} {v}");
        }
        for o in &self.ops {
            let _ = write!(s, "op {} {}", o.t, o.k);
            for v in &o.a {
                let _ = write!(s, " {v}");
            }
            s.push('\n');
        }
        if let Some(f) = &self.fates {
            let _ = writeln!(s, "fates explicit");
            for ((l, n), f) in f {
                let _ = write!(s, "fate {l} {n}");
                if f.drop {
                    s.push_str(" drop");
                }
                if let Some(d) = f.delay {
                    let _ = write!(s, " delay={d}");
                }
                for d in &f.dups {
                    let _ = write!(s, " dup={d}");
                }
                for d in &f.flips {
                    let _ = write!(s, " flip={d}");
                }
                s.push('\n');
            }
        }
        s
    }

    pub fn from_text(text: &str) -> Result<Plan, String> {
        let mut plan = Plan::new("", 0);
        for line in text.lines() {
            let w: Vec<&str> = line.split_whitespace().collect();
            let bad = || format!("bad line: {line}");
            match w.first().copied() {
                None => {}
                Some(c) if c.starts_with('#') => {}
                Some("scen") => plan.scen = w.get(1).ok_or_else(bad)?.to_string(),
                Some("seed") => plan.seed = w.get(1).and_then(|v| v.parse().ok()).ok_or_else(bad)?,
                Some("param") => {
                    plan.p.insert(
                        w.get(1).ok_or_else(bad)?.to_string(),
                        w.get(2).and_then(|v| v.parse().ok()).ok_or_else(bad)?,
                    );
                }
                Some("op") => plan.ops.push(Op {
                    t: w.get(1).and_then(|v| v.parse().ok()).ok_or_else(bad)?,
                    k: w.get(2).and_then(|v| op_name(v)).ok_or_else(bad)?,
                    a: w[3..].iter().map(|v| v.parse().map_err(|_| bad())).collect::<Result<_, _>>()?,
                }),
                Some("fates") => plan.fates = Some(BTreeMap::new()),
                Some("fate") => {
                    let key = (
                        w.get(1).and_then(|v| v.parse().ok()).ok_or_else(bad)?,
                        w.get(2).and_then(|v| v.parse().ok()).ok_or_else(bad)?,
                    );
                    let mut f = Fate::default();
                    for v in &w[3..] {
                        if *v == "drop" {
                            f.drop = true;
                        } else if let Some(d) = v.strip_prefix("delay=") {
                            f.delay = Some(d.parse().map_err(|_| bad())?);
                        } else if let Some(d) = v.strip_prefix("dup=") {
                            f.dups.push(d.parse().map_err(|_| bad())?);
                        } else if let Some(d) = v.strip_prefix("flip=") {
                            f.flips.push(d.parse().map_err(|_| bad())?);
                        }
                    }
                    plan.fates.get_or_insert_with(BTreeMap::new).insert(key, f);
                }
                Some("expect") => {}
                _ => return Err(bad()),
            }
        }
        Ok(plan)
    }
}

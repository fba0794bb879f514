//! Checks the bytes an endpoint puts on the wire against its negotiated ceiling, over every interval.

use crate::wire::MAX_FRAME;
use std::collections::VecDeque;

pub struct RateWatch {
    pub ceil: u64,
    emis: VecDeque<(u64, usize, f64)>,
    total: f64,
    lowest: f64,
    rtt_max: f64,
    t0: Option<u64>,
}

impl RateWatch {
    pub fn new(ceil: u64) -> Self {
        RateWatch { ceil, emis: VecDeque::new(), total: 0.0, lowest: f64::INFINITY, rtt_max: 0.0, t0: None }
    }

    /// `len` bytes left at local time `ns` while the RTT estimate was `rtt` seconds.
    pub fn push(&mut self, ns: u64, len: usize, rtt: f64) -> Option<String> {
        if self.ceil < MAX_FRAME as u64 {
            return None;
        }
        let t0 = *self.t0.get_or_insert(ns);
        let ceil = self.ceil as f64;
        let one = MAX_FRAME as f64 + 2.0;
        self.emis.push_back((ns, len, rtt));
        if self.emis.len() > 400 {
            self.emis.pop_front();
        }
        // Every interval which ends now and began at most 400 frames ago, with the largest estimate in force during it.
        let (mut sum, mut rmax) = (0usize, 0.0f64);
        for &(t, l, r) in self.emis.iter().rev() {
            sum += l;
            rmax = rmax.max(r);
            let bound = ceil * ((ns - t) as f64 / 1e9 + rmax) + one;
            if sum as f64 > bound {
                return Some(format!(
                    "ceiling {ceil} B/s: {sum} bytes within {:.6} s; at most {bound:.0} allowed (RTT estimate {rmax:.4} s)",
                    (ns - t) as f64 / 1e9
                ));
            }
        }
        // All longer intervals, with the largest estimate of the whole run.
        let line = ceil * (ns - t0) as f64 / 1e9;
        self.rtt_max = self.rtt_max.max(rtt);
        self.lowest = self.lowest.min(self.total - line);
        self.total += len as f64;
        let excess = self.total - line - self.lowest;
        if excess > ceil * self.rtt_max + one {
            return Some(format!(
                "ceiling {ceil} B/s: over some interval {excess:.0} bytes more than ceiling x interval; at most {:.0} allowed",
                ceil * self.rtt_max + one
            ));
        }
        None
    }
}

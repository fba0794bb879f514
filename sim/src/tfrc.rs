//! Reference for the sender side of TFRC (RFC 5348): RTT average, slow start bound, loss event rate and the TCP
//! throughput equation.  It computes upper bounds only and stops judging where it cannot know what the sender saw.

use std::collections::BTreeSet;

const S: f64 = 1472.0;
const W: [f64; 8] = [1.0, 1.0, 1.0, 1.0, 0.8, 0.6, 0.4, 0.2];
pub const FLOOR: f64 = 23.0;

pub fn throughput(rtt: f64, p: f64) -> f64 {
    if p <= 0.0 {
        return f64::INFINITY;
    }
    let f = (2.0 * p / 3.0).sqrt() + 12.0 * (3.0 * p / 8.0).sqrt() * p * (1.0 + 32.0 * p * p);
    S / (rtt * f)
}

pub fn initial_window_rate(rtt: f64) -> f64 {
    4380.0 / rtt
}

pub struct TfrcRef {
    /// The sender may have ignored acknowledgements which the reference counted (or the other way round).
    pub uncertain: bool,
    pub loss_checked: bool,
    base: u64,
    held: BTreeSet<u64>,
    newest_ms: Option<u64>,
    /// (end of the loss event in ms, length in frames), newest first
    intervals: Vec<(u64, f64)>,
    /// Loss was seen but no feedback has been produced since.
    equation: bool,
    had_feedback: bool,
    pub feedbacks: u64,
}

impl TfrcRef {
    pub fn new() -> Self {
        TfrcRef {
            uncertain: false,
            loss_checked: false,
            base: 0,
            held: BTreeSet::new(),
            newest_ms: None,
            intervals: Vec::new(),
            equation: false,
            had_feedback: false,
            feedbacks: 0,
        }
    }

    pub fn on_newly_acked(&mut self, frame: u64, send_ms: u64, _size: usize) {
        self.newest_ms = Some(self.newest_ms.map_or(send_ms, |m| m.max(send_ms)));
        if frame >= self.base {
            self.held.insert(frame);
        }
    }

    /// Decide losses (three later frames acknowledged) and update the loss history.
    pub fn consume(&mut self, send_ms: impl Fn(u64) -> Option<u64>, rtt_s: Option<f64>) {
        let rtt_ms = rtt_s.map_or(100, |r| (r * 1000.0).round() as u64);
        while self.held.remove(&self.base) {
            self.ack();
            self.base += 1;
        }
        while self.held.len() >= 3 {
            let a = *self.held.iter().next().unwrap();
            for f in self.base..a {
                match send_ms(f) {
                    Some(t) => self.nack(t, rtt_ms),
                    None => {
                        self.uncertain = true;
                        return;
                    }
                }
            }
            self.base = a;
            while self.held.remove(&self.base) {
                self.ack();
                self.base += 1;
            }
        }
    }

    fn ack(&mut self) {
        if let Some(i) = self.intervals.first_mut() {
            i.1 += 1.0;
        }
    }

    fn nack(&mut self, t: u64, rtt: u64) {
        match self.intervals.first_mut() {
            Some(i) if t < i.0 => i.1 += 1.0,
            _ => {
                self.intervals.insert(0, (t + rtt, 1.0));
                self.intervals.truncate(9);
            }
        }
    }

    pub fn loss_rate(&self) -> f64 {
        let n = self.intervals.len();
        match n {
            0 => 0.0,
            1 => 1.0 / self.intervals[0].1,
            _ => {
                let (mut t0, mut t1, mut w) = (0.0, 0.0, 0.0);
                for i in 0..n - 1 {
                    t0 += W[i] * self.intervals[i].1;
                    t1 += W[i] * self.intervals[i + 1].1;
                    w += W[i];
                }
                w / f64::max(t0, t1)
            }
        }
    }

    /// Judge the rate and RTT estimate the sender arrived at in a step at local time `ms`.
    #[allow(clippy::too_many_arguments)]
    pub fn on_step(
        &mut self,
        ms: u64,
        prev_rate: f64,
        rate: f64,
        prev_rtt: Option<f64>,
        rtt: Option<f64>,
        ceiling: f64,
        oldest_unjudged_ms: Option<u64>,
    ) -> Option<(&'static str, String)> {
        let newest = self.newest_ms.take();
        if let Some(o) = oldest_unjudged_ms {
            // A sender may write such frames off (and count them lost) at its own discretion.
            if (ms.saturating_sub(o)) as f64 > 3400.0 * prev_rtt.unwrap_or(0.15) - 5.0 {
                self.uncertain = true;
            }
        }
        if self.uncertain {
            return None;
        }
        let newest = newest?;
        self.feedbacks += 1;
        let sample = (ms - newest) as f64 / 1000.0;
        let want = prev_rtt.map_or(sample, |r| 0.9 * r + 0.1 * sample);
        let first = !self.had_feedback;
        self.had_feedback = true;
        let Some(r) = rtt else {
            return Some(("rtt", format!("feedback (RTT sample {sample} s) did not set the RTT estimate")));
        };
        if (r - want).abs() > 1e-6 + 1e-6 * want {
            return Some((
                "rtt",
                format!("RTT estimate {prev_rtt:?} became {r:.6} s after a sample of {sample:.3} s; the 0.9/0.1 average is {want:.6}"),
            ));
        }
        if r <= 0.0005 {
            // The equation is not defined for a vanishing RTT.
            if !self.intervals.is_empty() {
                self.uncertain = true;
            }
            return None;
        }
        if self.intervals.is_empty() {
            let lim = f64::max(2.0 * prev_rate, initial_window_rate(r)).min(ceiling.max(FLOOR));
            if rate > lim + 1.0 {
                return Some((
                    "slowstart",
                    format!("rate rose from {prev_rate} to {rate} B/s on one feedback in slow start; at most {lim:.0} (RTT {r:.4} s)"),
                ));
            }
            return None;
        }
        self.loss_checked = true;
        if !self.equation {
            // First loss: the history is reset so that the equation yields half of the previous rate.
            self.equation = true;
            let target = if first { S / 2.0 / r } else { prev_rate / 2.0 };
            let lim = target.max(FLOOR);
            if rate > lim + 1.0 {
                return Some((
                    "firstloss",
                    format!("rate went from {prev_rate} to {rate} B/s on the first loss; at most {lim:.0} (RTT {r:.4} s)"),
                ));
            }
            // The sender may pick any p for which the equation is within 5 % of the target.
            let goal = 1.05 * target + 1.0;
            let (mut lo, mut hi) = (1e-12f64, 1.0f64);
            for _ in 0..200 {
                let m = (lo * hi).sqrt();
                if throughput(r, m) > goal {
                    lo = m;
                } else {
                    hi = m;
                }
            }
            self.intervals.truncate(1);
            self.intervals[0].1 = (1.0 / hi).min(4294967295.0).ceil() + 1.0;
            return None;
        }
        let p = self.loss_rate();
        let x = throughput(r, p);
        let lim = x.max(FLOOR);
        if rate > lim * 1.000001 + 1.0 {
            return Some((
                "equation",
                format!("rate {rate} B/s exceeds the throughput equation {x:.1} B/s (RTT {r:.4} s, loss event rate {p:.6})"),
            ));
        }
        None
    }

    pub fn first_unjudged(&self) -> u64 {
        self.base
    }
}

//! The send rate computation alone, driven with arbitrary feedback histories, against an evaluation of RFC 5348
//! sections 4.2 - 4.4 in floating point.  The reference yields upper bounds for the allowed rate (and a lower one where
//! a timer expires); where RFC and rounding leave two answers it accepts both.

use crate::ctx::{lib, Ctx};
use crate::plan::Plan;
use crate::tfrc::{initial_window_rate, throughput, FLOOR};
use uflow::verif::{FeedbackData, SendRateComp};

const S: f64 = 1472.0;

/// X_recv_set; `hi` keeps an entry as long as it may be kept, `lo` only as long as it must be.
struct RecvSet {
    hi: Vec<(f64, u64)>,
    lo: Vec<(f64, u64)>,
}

fn max(v: &[(f64, u64)]) -> f64 {
    v.iter().fold(0.0, |m, e| f64::max(m, e.0))
}

impl RecvSet {
    fn update(&mut self, now: u64, x: f64, rtt_ms: f64) {
        let age = |t: u64| (now - t) as f64;
        self.hi.retain(|e| age(e.1) <= 2.0 * rtt_ms + 2.0);
        self.lo.retain(|e| age(e.1) < 2.0 * rtt_ms - 2.0);
        self.hi.push((x, now));
        self.lo.push((x, now));
    }

    fn maximize(&mut self, now: u64, x: f64) {
        for v in [&mut self.hi, &mut self.lo] {
            v.retain(|e| e.0.is_finite());
            v.push((x, now));
            let m = max(v);
            v.clear();
            v.push((m, now));
        }
    }

    fn halve(&mut self) {
        for e in self.hi.iter_mut() {
            e.0 /= 2.0;
        }
        for e in self.lo.iter_mut() {
            e.0 = (e.0 / 2.0).floor();
        }
    }
}

struct Ref {
    ceiling: f64,
    sent: bool,
    rtt: Option<f64>,
    set: RecvSet,
    /// last reported loss event rate
    p: f64,
    /// the rate which the throughput equation last allowed (None: slow start)
    tcp: Option<f64>,
    /// earliest and latest time of the last doubling
    doubled: Option<(u64, u64)>,
    /// earliest and latest time at which the timer may expire
    due: (f64, f64),
    /// the sender has (may have, surely has) been idle since the timer was set
    idle: bool,
    surely_idle: bool,
}

impl Ref {
    fn rto_ms(&self, x: f64) -> f64 {
        1000.0 * f64::max(4.0 * self.rtt.unwrap_or(0.0), 2.0 * S / x)
    }

    fn timer(&mut self, now: u64, x: f64) {
        let t = now as f64 + self.rto_ms(x);
        self.due = (t - 1.0, t + 1.0);
        self.idle = true;
        self.surely_idle = true;
    }
}

pub fn run(plan: &Plan, ctx: &mut Ctx) {
    let ceiling = plan.get("max", 1_000_000).clamp(1472, u32::MAX as i64) as u32;
    let base = plan.get("base", 0) as u64;
    let mut comp = lib("new", || SendRateComp::new(ceiling));
    let mut rf = Ref {
        ceiling: ceiling as f64,
        sent: false,
        rtt: None,
        set: RecvSet { hi: vec![], lo: vec![] },
        p: 0.0,
        tcp: None,
        doubled: None,
        due: (0.0, 0.0),
        idle: false,
        surely_idle: false,
    };
    let mut init_p = 0.1f64;
    for o in &plan.ops {
        ctx.now = o.t;
        ctx.events += 1;
        let now = base + o.t / 1000;
        let g = |i: usize| o.a.get(i).copied().unwrap_or(0);
        let prev = comp.send_rate();
        match o.k {
            "sent" => {
                lib("notify_frame_sent", || comp.notify_frame_sent(now));
                if !rf.sent {
                    rf.sent = true;
                    rf.set = RecvSet { hi: vec![(f64::INFINITY, now)], lo: vec![(f64::INFINITY, now)] };
                    rf.due = (now as f64 + 1999.0, now as f64 + 2001.0);
                }
                rf.idle = false;
                rf.surely_idle = false;
                if comp.send_rate() > prev {
                    ctx.fail(14, "increase", || "sending a frame raised the allowed rate".into());
                }
            }
            "fb" => {
                if !rf.sent {
                    continue;
                }
                let rtt_ms = g(0).max(0) as u64;
                let recv = match g(1) {
                    0 => g(2) as u64,
                    // relative to the rate in force
                    _ => (prev * g(2) as f64 / 1000.0).min(4e9) as u64,
                }
                .min(u32::MAX as u64) as u32;
                let loss = match g(3) {
                    0 => 0.0,
                    1 => g(4) as f64 / 1e9,
                    2 => rf.p * g(4) as f64 / 1000.0,
                    _ if rf.tcp.is_some() => init_p * g(4) as f64 / 1000.0,
                    _ => 0.0,
                }
                .clamp(0.0, 1.0);
                let limited = g(5) != 0;
                let fb = FeedbackData { rtt_ms, receive_rate: recv, loss_rate: loss, rate_limited: limited };
                let mut reset = None;
                lib("step", || comp.step(now, Some(fb), |p| reset = Some(p)));
                judge_feedback(ctx, &mut rf, &comp, now, prev, rtt_ms, recv as f64, loss, limited, reset);
                if let Some(p) = reset {
                    init_p = p;
                }
            }
            _ => {
                lib("step", || comp.step(now, None, |_| ()));
                judge_silence(ctx, &mut rf, &comp, now, prev);
            }
        }
        let x = comp.send_rate();
        if !ctx.failed() {
            if x > rf.ceiling {
                let c = rf.ceiling;
                ctx.fail(14, "ceiling", || format!("rate {x} B/s above the ceiling {c}"));
            }
            if rf.rtt.is_none() && x > S + 1.0 {
                ctx.fail(14, "initial", || format!("rate {x} B/s before the first feedback; the initial rate is one packet per second"));
            }
            // An RTT of minutes makes the initial window per RTT less than the floor.
            if x < FLOOR && x < prev.min(initial_window_rate(rf.rtt.unwrap_or(0.0)).floor()) {
                ctx.fail(14, "floor", || format!("rate {x} B/s below s/64"));
            }
        }
        ctx.tr(x as u64 ^ (now << 32));
        let lg = |v: f64| if v <= 0.0 { 0 } else { (v.log2() * 2.0) as i64 as u64 & 255 };
        let h = lg(x) | lg(rf.rtt.unwrap_or(0.0) * 1000.0) << 8 | lg(rf.p * 1e9) << 16 | (rf.tcp.is_some() as u64) << 24;
        ctx.stats.state(h | (rf.idle as u64) << 25 | lg(max(&rf.set.hi)) << 32);
        ctx.note(|| {
            format!("{} {:?} (at {now} ms): rate {prev} -> {x}, rtt {:?} s, rto {:?} ms", o.k, o.a, comp.rtt_s(), comp.rto_ms())
        });
        if ctx.failed() {
            break;
        }
    }
    ctx.stats.sim_us += ctx.now;
    ctx.nontrivial = rf.rtt.is_some();
}

#[allow(clippy::too_many_arguments)]
fn judge_feedback(
    ctx: &mut Ctx,
    rf: &mut Ref,
    comp: &SendRateComp,
    now: u64,
    prev: f64,
    sample_ms: u64,
    recv: f64,
    loss: f64,
    limited: bool,
    reset: Option<f64>,
) {
    let x = comp.send_rate();
    let sample = sample_ms as f64 / 1000.0;
    let r = rf.rtt.map_or(sample, |r| 0.9 * r + 0.1 * sample);
    let got = comp.rtt_s();
    if got.map_or(true, |g| (g - r).abs() > 1e-6 + 1e-6 * r) {
        let was = rf.rtt;
        ctx.fail(14, "rtt", || format!("RTT estimate {was:?} became {got:?} s after a sample of {sample} s; the 0.9/0.1 average is {r:.6}"));
        return;
    }
    let r = got.unwrap();
    rf.rtt = Some(r);
    let first = rf.doubled.is_none();
    let increase = loss > rf.p;
    rf.p = loss;
    if limited {
        rf.set.update(now, recv, r * 1000.0);
        ctx.stats.bump("probe:feedback_rate_limited");
    } else if increase {
        rf.set.halve();
        rf.set.maximize(now, recv * 0.85);
        ctx.stats.bump("probe:feedback_data_limited_loss");
    } else {
        rf.set.maximize(now, recv);
        ctx.stats.bump("probe:feedback_data_limited");
    }
    let m = max(&rf.set.hi);
    let recv_limit = if !limited && increase { m } else { 2.0 * m };
    let (class, lim) = if let Some(tcp) = rf.tcp.as_mut() {
        *tcp = throughput(r, loss);
        ctx.stats.bump("probe:feedback_equation");
        let class = if *tcp < recv_limit { "equation" } else { "recv_limit" };
        (class, f64::max(tcp.min(recv_limit), FLOOR))
    } else if increase {
        // Leave slow start; the loss history is set so that the equation yields this target.
        let target = if first { S / 2.0 / r } else { prev / 2.0 };
        rf.tcp = Some(target);
        ctx.stats.bump("probe:feedback_first_loss");
        match reset {
            None => {
                ctx.fail(14, "firstloss", || "the loss history was not set on the first loss".into());
                return;
            }
            Some(p) => {
                let y = throughput(r, p);
                if !(p > 0.999 || y <= target * 1.05 + 2.0) {
                    ctx.fail(14, "firstloss", || {
                        format!("first loss with a target of {target:.1} B/s set a loss event rate of {p:e}, for which the equation yields {y:.1} B/s (RTT {r} s)")
                    });
                    return;
                }
            }
        }
        if target < recv_limit { ("firstloss", target.max(FLOOR)) } else { ("recv_limit", recv_limit.max(FLOOR)) }
    } else if first {
        rf.doubled = Some((now, now));
        ("slowstart", initial_window_rate(r))
    } else if ((now - rf.doubled.unwrap().0) as f64) < r * 1000.0 - 1.0 {
        // At most once per RTT.
        ("slowstart", prev)
    } else {
        let (early, late) = rf.doubled.unwrap();
        let sure = (now - late) as f64 > r * 1000.0 + 1.0 || x > prev;
        rf.doubled = Some((if sure { now } else { early }, now));
        ctx.stats.bump("probe:feedback_doubling");
        let class = if recv_limit < 2.0 * prev { "recv_limit" } else { "slowstart" };
        let lim = f64::max(f64::min(2.0 * prev, recv_limit), initial_window_rate(r));
        (class, if sure { lim } else { lim.max(prev) })
    };
    if rf.tcp.is_some() && reset.is_some() && !increase {
        ctx.fail(14, "firstloss", || "the loss history was set anew without a loss".into());
        return;
    }
    let lim = lim.min(rf.ceiling);
    if x > lim * 1.000001 + 1.0 {
        let t = rf.tcp;
        ctx.fail(14, class, || {
            format!(
                "feedback (RTT sample {sample_ms} ms, receive rate {recv}, loss event rate {loss:e}, rate limited {limited}) took the rate from {prev} to {x} B/s; at most {lim:.1} (RTT {r:.6} s, receive limit {recv_limit}, equation {t:?})"
            )
        });
        return;
    }
    // Section 4.3, step 3: the timeout follows from the rate before this report.
    rf.timer(now, prev);
    rto_check(ctx, rf, comp, prev);
}

fn rto_check(ctx: &mut Ctx, rf: &Ref, comp: &SendRateComp, x: f64) {
    let want = rf.rto_ms(x);
    let got = comp.rto_ms().map(|v| v as f64);
    if got.map_or(true, |g| (g - want).abs() > 1.0 + 1e-9 * want) {
        ctx.fail(14, "rto", || format!("retransmission timeout {got:?} ms, but max(4R, 2s/X) is {want:.1} ms"));
    }
}

fn judge_silence(ctx: &mut Ctx, rf: &mut Ref, comp: &SendRateComp, now: u64, prev: f64) {
    let x = comp.send_rate();
    if comp.rtt_s() != rf.rtt {
        ctx.fail(14, "rtt", || "the RTT estimate changed without feedback".into());
        return;
    }
    if x > prev {
        ctx.fail(14, "increase", || format!("rate rose from {prev} to {x} B/s without feedback"));
        return;
    }
    if !rf.sent || (now as f64) < rf.due.0 {
        if x != prev {
            let d = rf.due.0 + 1.0;
            ctx.fail(14, "early", || format!("rate went from {prev} to {x} B/s at {now} ms, before the timer expires at {d:.0} ms"));
        }
        return;
    }
    let expired = now as f64 >= rf.due.1;
    if !expired && x == prev {
        // Not decided by the reference; take the new deadline, if there is one, from the next expiry.
        rf.due.1 = rf.due.1.max(now as f64 + rf.rto_ms(x) + 1.0);
        rf.idle = true;
        let m = max(&rf.set.hi).min(1e10);
        rf.set.hi.push((m, now));
        rf.set.lo = vec![(0.0, now)];
        ctx.stats.bump("probe:expiry_undecided");
        return;
    }
    if x < prev && x < (prev / 2.0).floor().max(FLOOR) - 1.0 {
        ctx.fail(14, "halve", || format!("the no-feedback timer took the rate from {prev} to {x} B/s, less than half"));
        return;
    }
    let recover = initial_window_rate(rf.rtt.unwrap_or(f64::INFINITY)).min(4294967295.0);
    let half = (prev / 2.0).max(FLOOR);
    let (may_keep, lim) = match (rf.tcp, rf.rtt) {
        (None, None) => (false, half),
        (None, Some(_)) => (rf.idle && prev < 2.0 * recover + 2.0, half),
        (Some(tcp), _) => {
            let (hi, lo) = (max(&rf.set.hi), max(&rf.set.lo));
            let may = rf.idle && lo < recover + 1.0;
            let must = rf.surely_idle && hi < recover - 1.0;
            let limit = |m: f64| f64::max(tcp.min(2.0 * m).min(4294967295.0) / 2.0, FLOOR);
            let (nh, nl) = (limit(hi), limit((lo - 1.0).max(0.0)));
            if !may {
                rf.set.hi.clear();
            }
            if !must {
                rf.set.hi.push((nh / 2.0, now));
            }
            if !must {
                let keep = if may { lo } else { f64::INFINITY };
                rf.set.lo = vec![(f64::min(keep, (nl / 2.0 - 1.0).floor().max(0.0)), if may { 0 } else { now })];
            }
            (may, f64::max(tcp.min(nh), FLOOR))
        }
    };
    if !may_keep && x > lim.min(prev) + 1.0 {
        ctx.fail(14, "expiry", || {
            format!("the no-feedback timer expired with the sender not idle below the recovery rate, but the rate went from {prev} to {x} B/s; at most {lim:.1}")
        });
        return;
    }
    ctx.stats.bump(if x < prev { "probe:expiry_lowered" } else { "probe:expiry_kept" });
    rf.timer(now, x);
    rto_check(ctx, rf, comp, x);
}

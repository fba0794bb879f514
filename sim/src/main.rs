//! Deterministic simulation of uflow: seeded search over schedules and fault sequences, replay and minimisation.

mod alloc;
mod ctx;
mod env;
#[cfg(feature = "direct")]
mod feedback;
mod flow;
mod gen;
mod gennet;
mod hostile;
mod link;
mod net;
mod plan;
mod rng;
mod shrink;
mod stats;
mod synth;
mod tfrc;
mod watch;
mod wire;

use ctx::{Ctx, SLOTS};
use plan::Plan;
use stats::{Outcome, Stats, Violation};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// Properties whose statement excludes a panic of the library during honest operation.
const PANIC_COUNTS: &[u8] = &[2, 3, 4, 5, 7, 9, 10, 11];

pub const MEM_CAP: isize = 3 << 30;

/// Execute one plan.
pub fn execute(plan: &Plan, prop: u8, stats: &mut Stats, verbose: bool) -> (Outcome, Vec<String>) {
    ctx::reset_lib_state();
    alloc::reset_tag();
    let _ = alloc::take_fault();
    alloc::set_quarantine(prop == 19);
    let mut c = Ctx::new(prop, stats);
    c.verbose = verbose;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match plan.scen.as_str() {
        "link" => link::run(plan, &mut c),
        "net" => net::run(plan, &mut c),
        "synth" => synth::run(plan, &mut c),
        #[cfg(feature = "direct")]
        "feedback" => feedback::run(plan, &mut c),
        s => panic!("unknown scenario {s}"),
    }));
    alloc::reset_tag();
    alloc::set_quarantine(false);
    let mut panic = None;
    if r.is_err() {
        uflow::verif::set_backend(None);
        let info = ctx::LAST_PANIC.with(|p| p.borrow_mut().take());
        match info {
            Some(i) if i.in_lib.is_some() => {
                let text = format!("panic in {} at {}: {}", i.in_lib.unwrap(), i.at, i.msg);
                let honest = plan.get("hostile", 0) == 0;
                if prop == 3 || (PANIC_COUNTS.contains(&prop) && honest) || plan.scen == "feedback" {
                    if c.violation.is_none() {
                        c.violation =
                            Some(Violation { prop, class: format!("panic@{}", i.at), msg: text, t: c.now });
                    }
                } else {
                    panic = Some(text);
                }
            }
            Some(i) => {
                eprintln!("HARNESS ERROR: panic at {}: {}\n{}", i.at, i.msg, plan.to_text());
                std::process::exit(3);
            }
            None => {
                eprintln!("HARNESS ERROR: unexplained panic");
                std::process::exit(3);
            }
        }
        let _ = alloc::take_fault();
    }
    if panic.is_some() {
        c.stats.panics_ignored += 1;
    }
    let log = std::mem::take(&mut c.log);
    let o = Outcome {
        violation: c.violation.take(),
        trace: c.trace,
        sim_us: c.now,
        events: c.events,
        nontrivial: c.nontrivial,
        fates: std::mem::take(&mut c.fates),
        panic,
    };
    (o, log)
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args(BTreeMap<String, String>, Vec<String>);

impl Args {
    fn parse() -> Args {
        let mut m = BTreeMap::new();
        let mut pos = Vec::new();
        let mut it = std::env::args().skip(1).peekable();
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                let v = match it.peek() {
                    Some(v) if !v.starts_with("--") => it.next().unwrap(),
                    _ => "1".into(),
                };
                m.insert(k.to_string(), v);
            } else {
                pos.push(a);
            }
        }
        Args(m, pos)
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
    fn str<'a>(&'a self, k: &str, d: &'a str) -> &'a str {
        self.0.get(k).map_or(d, |v| v.as_str())
    }
}

fn main() {
    ctx::install_panic_hook();
    let a = Args::parse();
    let code = match a.1.first().map(|s| s.as_str()) {
        Some("run") => run(&a),
        Some("any") => any(&a),
        Some("replay") => replay(&a),
        Some("gen") => {
            let p = gen::gen(a.num("prop", 1) as u8, a.num("seed", 1), a.num("index", 0), a.str("tier", "quick"));
            print!("{}", p.to_text());
            0
        }
        Some("one") => {
            let prop = a.num("prop", 1) as u8;
            let p = gen::gen(prop, a.num("seed", 1), a.num("index", 0), a.str("tier", "quick"));
            show(&p, prop, a.num("verbose", 0) != 0)
        }
        Some("shrink") => shrink_cmd(&a),
        Some("determinism") => determinism(&a),
        _ => {
            eprintln!("usage: uflow-sim run|replay|gen|one|shrink|determinism ...");
            2
        }
    };
    std::process::exit(code);
}

fn with_big_stack<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> R {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap()
}

fn show(p: &Plan, prop: u8, verbose: bool) -> i32 {
    let p = p.clone();
    with_big_stack(move || {
        let mut st = Stats::default();
        let t = Instant::now();
        let (o, log) = execute(&p, prop, &mut st, verbose);
        for l in log {
            println!("{l}");
        }
        println!(
            "scen {} kind {} trace {:016x} sim {:.3} s events {} nontrivial {} wall {:.1} ms panic {:?}",
            p.scen,
            p.get("kind", -1),
            o.trace,
            o.sim_us as f64 / 1e6,
            o.events,
            o.nontrivial,
            t.elapsed().as_secs_f64() * 1e3,
            o.panic
        );
        let mut c: Vec<_> = st.counters.iter().collect();
        c.sort();
        for (k, v) in c {
            print!("{k}={v} ");
        }
        println!();
        match o.violation {
            Some(v) => {
                println!("VIOLATED C{:02} {} at {} us: {}", v.prop, v.class, v.t, v.msg);
                1
            }
            None => 0,
        }
    })
}

/// Replay a file: exit 1 if the recorded violation occurs again, 0 if the run is clean.
fn replay(a: &Args) -> i32 {
    let path = a.1.get(1).cloned().unwrap_or_default();
    let text = match std::fs::read_to_string(&path) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let mut prop = a.num("prop", 0) as u8;
    let (mut class, mut trace) = (String::new(), String::new());
    for l in text.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        if w.first() == Some(&"expect") && w.len() >= 4 {
            prop = w[1].trim_start_matches('C').parse().unwrap_or(prop);
            class = w[2].into();
            trace = w[3].into();
        }
    }
    let plan = match Plan::from_text(&text) {
        Ok(p) => p,
        Err(e) => {
            eprintln!("{e}");
            return 2;
        }
    };
    let verbose = a.num("verbose", 0) != 0;
    let limit = a.num("limit", 60);
    spawn_guard(limit);
    with_big_stack(move || {
        ctx::WORKER_ID.with(|w| w.set(0));
        alloc::WORKER.with(|w| w.set(0));
        alloc::set_cap(MEM_CAP);
        let mut st = Stats::default();
        let (o, log) = execute(&plan, prop, &mut st, verbose);
        for l in log {
            println!("{l}");
        }
        match o.violation {
            Some(v) => {
                let t = format!("{:016x}", o.trace);
                println!("reproduced: C{:02} {} at {} us: {}", v.prop, v.class, v.t, v.msg);
                println!(
                    "same violation: {}; same execution (trace {t}): {}",
                    if v.class == class { "yes" } else { "no" },
                    if t == trace { "yes" } else { "no" }
                );
                println!("RESULT class={}", v.class);
                1
            }
            None => {
                println!("no violation on this tree (trace {:016x})", o.trace);
                0
            }
        }
    })
}

/// Ends the process with code 97 when one library call burns more than `limit` CPU seconds, 98 when memory explodes.
fn spawn_guard(limit: u64) {
    std::thread::spawn(move || {
        let start = Instant::now();
        let (mut last, mut since) = (0u64, Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(50));
            if alloc::MEM_EXPLODED.load(Ordering::SeqCst) {
                println!("reproduced: memory exhausted inside a library call");
                println!("RESULT class=memory");
                std::process::exit(98);
            }
            let s = SLOTS[0].seq.load(Ordering::Relaxed);
            if s != last || s & 1 == 0 {
                last = s;
                since = Instant::now();
            }
            if s & 1 == 1 && since.elapsed().as_secs() >= limit.min(HANG_S) {
                println!("reproduced: a library call did not return within {} s", limit.min(HANG_S));
                println!("RESULT class=hang");
                std::process::exit(97);
            }
            if start.elapsed().as_secs() > 600 {
                std::process::exit(99);
            }
        }
    });
}

/// A single call into the library is expected to take microseconds to milliseconds.
pub const HANG_S: u64 = 8;

extern "C" {
    fn pthread_self() -> usize;
    fn pthread_getcpuclockid(t: usize, clk: *mut i32) -> i32;
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
}

fn cpu_time(clk: i32) -> f64 {
    let mut ts = [0i64; 2];
    if unsafe { clock_gettime(clk, &mut ts) } != 0 {
        return 0.0;
    }
    ts[0] as f64 + ts[1] as f64 / 1e9
}

struct Found {
    index: u64,
    v: Violation,
    known: bool,
}

/// All properties in turn (for experiments: does anything notice a change?).
fn any(a: &Args) -> i32 {
    let props: Vec<u8> = match a.str("props", "") {
        "" => (1..=20).filter(|p| *p != 16).collect(),
        s => s.split(',').filter_map(|x| x.parse().ok()).collect(),
    };
    let (seed, start) = (a.num("seed", 1), a.num("start", 0));
    let deadline = Instant::now() + Duration::from_secs(a.num("budget", 20));
    let threads = a.num("threads", 8) as usize;
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    std::thread::scope(|s| {
        for w in 0..threads {
            let (next, stop, props) = (&next, &stop, &props);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    ctx::WORKER_ID.with(|x| x.set(w));
                    alloc::WORKER.with(|x| x.set(w));
                    alloc::set_cap(MEM_CAP);
                    let mut st = Stats::default();
                    while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        let (prop, index) = (props[(i % props.len() as u64) as usize], start + i / props.len() as u64);
                        SLOTS[w].run.store(index << 8 | prop as u64, Ordering::SeqCst);
                        let plan = gen::gen(prop, seed, index, "quick");
                        let (o, _) = execute(&plan, prop, &mut st, false);
                        if let Some(v) = o.violation.filter(|v| !v.class.starts_with("known:")) {
                            if !stop.swap(true, Ordering::SeqCst) {
                                println!("ANY C{prop:02} index={index} class={} msg={}", v.class, v.msg);
                            }
                        }
                    }
                    SLOTS[w].run.store(u64::MAX, Ordering::SeqCst);
                })
                .unwrap();
        }
        let mut seen = vec![(0u64, Instant::now()); threads];
        while !stop.load(Ordering::Relaxed) && Instant::now() < deadline + Duration::from_secs(12) {
            std::thread::sleep(Duration::from_millis(100));
            for w in 0..threads {
                let q = SLOTS[w].seq.load(Ordering::Relaxed);
                let run = SLOTS[w].run.load(Ordering::SeqCst);
                if q != seen[w].0 || q & 1 == 0 || run == u64::MAX {
                    seen[w] = (q, Instant::now());
                } else if seen[w].1.elapsed().as_secs() > HANG_S as u64 {
                    println!("ANY C{:02} index={} class=hang msg=", run & 255, run >> 8);
                    std::process::exit(1);
                }
            }
            if alloc::MEM_EXPLODED.load(Ordering::SeqCst) {
                println!("ANY C00 index=0 class=memory msg=");
                std::process::exit(1);
            }
            if (0..threads).all(|w| SLOTS[w].run.load(Ordering::SeqCst) == u64::MAX) && Instant::now() > deadline {
                break;
            }
        }
    });
    println!("any: {} runs", next.load(Ordering::SeqCst));
    stop.load(Ordering::SeqCst) as i32
}

fn run(a: &Args) -> i32 {
    let prop = a.num("prop", 1) as u8;
    let seed = a.num("seed", 1);
    let budget = a.num("budget", 60);
    let threads = a.num("threads", 4) as usize;
    let start_index = a.num("start", 0);
    gen::ONLY_KIND.store(a.num("kind", u64::MAX) as i64, Ordering::Relaxed);
    let max_runs = a.num("max-runs", u64::MAX);
    let tier = a.str("tier", "quick").to_string();
    let label = a.str("label", "checked").to_string();
    let out = a.str("out", "").to_string();
    let replay_dir = a.str("replays", "/verif/replays").to_string();
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs(budget);
    let next = Arc::new(AtomicU64::new(start_index));
    let stop = Arc::new(AtomicBool::new(false));
    let found: Arc<Mutex<Vec<Found>>> = Arc::new(Mutex::new(Vec::new()));
    let total = Arc::new(Mutex::new(Stats::default()));
    let samples: Arc<Mutex<Vec<String>>> = Arc::new(Mutex::new(Vec::new()));
    let slowest = Arc::new(Mutex::new((0.0f64, 0u64)));
    let mut hs = Vec::new();
    for w in 0..threads {
        let (next, stop, found, total, tier) =
            (next.clone(), stop.clone(), found.clone(), total.clone(), tier.clone());
        let samples = samples.clone();
        let slowest = slowest.clone();
        hs.push(
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    ctx::WORKER_ID.with(|x| x.set(w));
                    alloc::WORKER.with(|x| x.set(w));
                    alloc::set_cap(MEM_CAP);
                    let mut clk = 0;
                    unsafe { pthread_getcpuclockid(pthread_self(), &mut clk) };
                    SLOTS[w].cpu_clock.store(clk as u32 as u64, Ordering::SeqCst);
                    let mut st = Stats::default();
                    while !stop.load(Ordering::Relaxed) && Instant::now() < deadline {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i - start_index >= max_runs {
                            break;
                        }
                        SLOTS[w].run.store(i, Ordering::SeqCst);
                        let plan = gen::gen(prop, seed, i, &tier);
                        let tt = Instant::now();
                        let (o, _) = execute(&plan, prop, &mut st, false);
                        let el = tt.elapsed().as_secs_f64();
                        {
                            let mut s = slowest.lock().unwrap();
                            if el > s.0 {
                                *s = (el, i);
                            }
                        }
                        if std::env::var("SIM_TRACE").is_ok() {
                            println!("{i} {}:{} {el:.3}s trace {:016x} {:?}", plan.scen, plan.get("kind", 0), o.trace, o.violation.as_ref().map(|v| &v.class));
                        }
                        st.runs += 1;
                        st.nontrivial += o.nontrivial as u64;
                        st.events += o.events;
                        *st.scen.entry(format!("{}:{}", plan.scen, gen::kind_name(prop, plan.get("kind", 0)))).or_insert(0) += 1;
                        if o.nontrivial && st.traces.len() < 4_000_000 {
                            st.traces.insert(o.trace);
                        }
                        if i - start_index < 24 {
                            let mut s = samples.lock().unwrap();
                            s.push(format!(
                                "run {i} (scenario {}:{}, plan seed {}): {} events, {:.3} s simulated, execution hash {:016x}{}",
                                plan.scen,
                                gen::kind_name(prop, plan.get("kind", 0)),
                                plan.seed,
                                o.events,
                                o.sim_us as f64 / 1e6,
                                o.trace,
                                if o.violation.is_some() { " VIOLATION" } else { "" }
                            ));
                        }
                        // A sample of the runs is repeated: same plan, same execution.
                        if i % 61 == 7 && o.violation.is_none() {
                            let mut scratch = Stats::default();
                            let (o2, _) = execute(&plan, prop, &mut scratch, false);
                            st.determinism_checked += 1;
                            if o2.trace != o.trace || o2.violation.is_some() {
                                st.determinism_bad += 1;
                                eprintln!("note: run {i} is not repeatable");
                            }
                        }
                        if let Some(v) = o.violation {
                            let known = v.class.starts_with("known:");
                            found.lock().unwrap().push(Found { index: i, v, known });
                            if !known {
                                stop.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                    }
                    SLOTS[w].run.store(u64::MAX, Ordering::SeqCst);
                    total.lock().unwrap().merge(st);
                })
                .unwrap(),
        );
    }
    // Watchdog.
    let slot_file = a.str("slots", "").to_string();
    let mut seen = vec![(0u64, 0.0f64); threads];
    let mut hung: Option<(u64, &'static str)> = None;
    let mut tick = 0u64;
    while hs.iter().any(|h| !h.is_finished()) {
        std::thread::sleep(Duration::from_millis(100));
        tick += 1;
        if !slot_file.is_empty() && tick % 2 == 0 {
            let s: Vec<String> = (0..threads).map(|w| SLOTS[w].run.load(Ordering::SeqCst).to_string()).collect();
            let _ = std::fs::write(&slot_file, s.join(" "));
        }
        for w in 0..threads {
            if hs[w].is_finished() {
                continue;
            }
            let s = SLOTS[w].seq.load(Ordering::Relaxed);
            let clk = SLOTS[w].cpu_clock.load(Ordering::SeqCst);
            let cpu = if clk == u64::MAX { 0.0 } else { cpu_time(clk as u32 as i32) };
            if s != seen[w].0 || s & 1 == 0 {
                seen[w] = (s, cpu);
            } else if cpu - seen[w].1 > HANG_S as f64 {
                hung = Some((SLOTS[w].run.load(Ordering::SeqCst), "hang"));
            }
        }
        if alloc::MEM_EXPLODED.load(Ordering::SeqCst) {
            let w = alloc::MEM_EXPLODED_WORKER.load(Ordering::SeqCst);
            if w < threads {
                hung = Some((SLOTS[w].run.load(Ordering::SeqCst), "memory"));
            }
        }
        if hung.is_some() {
            break;
        }
    }
    if let Some((i, class)) = hung {
        // The worker cannot be stopped; report from here and leave.
        let plan = gen::gen(prop, seed, i, &tier);
        let honest = plan.get("hostile", 0) == 0;
        if prop == 3 || (PANIC_COUNTS.contains(&prop) && honest) || (prop == 6 && class == "memory") {
            let msg = if class == "hang" {
                format!("a library call did not return within {HANG_S} s of CPU time")
            } else {
                "a library call exhausted memory".to_string()
            };
            let v = Violation { prop, class: class.into(), msg, t: 0 };
            let small = shrink::shrink_child(&plan, prop, class, Duration::from_secs(a.num("shrink", 120)));
            let path = write_replay(&replay_dir, &small, prop, &v, 0, &label, i);
            println!("FOUND index={i} class={class} known=0 replay={path} msg={}", v.msg);
            write_out(&out, prop, seed, &label, t0, &Stats::default(), threads, Some((&v, &path, i)), &[], (0.0, 0));
            std::process::exit(1);
        }
        eprintln!("run {i}: {class} inside a library call (not a violation of C{prop:02}); no verdict");
        std::process::exit(4);
    }
    for h in hs {
        let _ = h.join();
    }
    let wall = t0.elapsed().as_secs_f64();
    let st = std::mem::take(&mut *total.lock().unwrap());
    let mut found = std::mem::take(&mut *found.lock().unwrap());
    found.sort_by_key(|f| f.index);
    let mut reported = None;
    let mut seen_known = Vec::new();
    for f in &found {
        if f.known {
            if !seen_known.contains(&f.v.class) {
                seen_known.push(f.v.class.clone());
                println!("KNOWN class={} msg={}", f.v.class, f.v.msg);
            }
            continue;
        }
        if reported.is_some() {
            continue;
        }
        let plan = gen::gen(prop, seed, f.index, &tier);
        let (small, v, trace) =
            shrink::shrink(&plan, prop, &f.v, Duration::from_secs(a.num("shrink", 60)));
        let path = write_replay(&replay_dir, &small, prop, &v, trace, &label, f.index);
        println!("FOUND index={} class={} known=0 replay={path} msg={}", f.index, v.class, v.msg);
        reported = Some((v, path, f.index));
    }
    let s = samples.lock().unwrap().clone();
    let sl = *slowest.lock().unwrap();
    write_out(
        &out,
        prop,
        seed,
        &label,
        t0,
        &st,
        threads,
        reported.as_ref().map(|(v, p, i)| (v, p, *i)),
        &s,
        sl,
    );
    eprintln!(
        "C{prop:02} {label}: {} runs in {wall:.1} s, {:.0} s simulated, {} events, {} distinct executions, {} states, slowest {:?}, panics ignored {}",
        st.runs,
        st.sim_us as f64 / 1e6,
        st.events,
        st.traces.len(),
        st.states.len(),
        sl,
        st.panics_ignored
    );
    if a.num("counters", 0) != 0 {
        let mut c: Vec<_> = st.counters.iter().collect();
        c.sort();
        for (k, v) in c {
            println!("  {k} = {v}");
        }
        for (k, v) in &st.scen {
            println!("  scen {k} = {v}");
        }
    }
    reported.is_some() as i32
}

fn write_replay(dir: &str, p: &Plan, prop: u8, v: &Violation, trace: u64, label: &str, index: u64) -> String {
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/C{prop:02}-{label}-{index}-{}.txt", v.class.replace(['/', ':', '@', ' '], "_"));
    let text = format!(
        "# C{prop:02}: {}\n# build: {label}; found at run index {index}; violated at simulated time {} us\n# replay: /verif/bin/replay {path}\nexpect C{prop:02} {} {trace:016x} {label}\n{}",
        v.msg.replace('\n', " "),
        v.t,
        v.class,
        p.to_text()
    );
    let _ = std::fs::write(&path, text);
    path
}

#[allow(clippy::too_many_arguments)]
fn write_out(
    out: &str,
    prop: u8,
    seed: u64,
    label: &str,
    t0: Instant,
    st: &Stats,
    threads: usize,
    v: Option<(&Violation, &String, u64)>,
    samples: &[String],
    slowest: (f64, u64),
) {
    if out.is_empty() {
        return;
    }
    let mut s = String::from("{");
    let _ = write!(
        s,
        "\"prop\":{prop},\"seed\":{seed},\"label\":{},\"wall_s\":{:.3},\"threads\":{threads},\"runs\":{},\"nontrivial\":{},\"sim_us\":{},\"events\":{},\"traces\":{},\"states\":{},\"states_capped\":{},\"panics_ignored\":{},\"det_checked\":{},\"det_bad\":{},\"slowest_s\":{:.3},\"slowest_index\":{}",
        js(label),
        t0.elapsed().as_secs_f64(),
        st.runs,
        st.nontrivial,
        st.sim_us,
        st.events,
        st.traces.len(),
        st.states.len(),
        st.states_capped,
        st.panics_ignored,
        st.determinism_checked,
        st.determinism_bad,
        slowest.0,
        slowest.1
    );
    let mut c: Vec<_> = st.counters.iter().collect();
    c.sort();
    let cs: Vec<String> = c.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    let _ = write!(s, ",\"counters\":{{{}}}", cs.join(","));
    let cs: Vec<String> = st.scen.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect();
    let _ = write!(s, ",\"scenarios\":{{{}}}", cs.join(","));
    let cs: Vec<String> = samples.iter().map(|x| js(x)).collect();
    let _ = write!(s, ",\"samples\":[{}]", cs.join(","));
    if let Some((v, p, i)) = v {
        let _ = write!(
            s,
            ",\"violation\":{{\"class\":{},\"msg\":{},\"replay\":{},\"index\":{i}}}",
            js(&v.class),
            js(&v.msg),
            js(p)
        );
    }
    s.push('}');
    let _ = std::fs::write(out, s);
}

/// Minimise a plan found otherwise (abort by signal): `shrink FILE --prop N --class abort`.
fn shrink_cmd(a: &Args) -> i32 {
    let prop = a.num("prop", 3) as u8;
    let seed = a.num("seed", 1);
    let index = a.num("index", 0);
    let label = a.str("label", "checked");
    let class = a.str("class", "abort").to_string();
    let plan = gen::gen(prop, seed, index, a.str("tier", "quick"));
    if !shrink::child_fails(&plan, prop, &class, 30) {
        println!("not reproduced");
        return 0;
    }
    let small = shrink::shrink_child(&plan, prop, &class, Duration::from_secs(a.num("shrink", 60)));
    let v = Violation { prop, class: class.clone(), msg: "the process was killed by a signal inside a library call".into(), t: 0 };
    let path = write_replay(a.str("replays", "/verif/replays"), &small, prop, &v, 0, label, index);
    println!("FOUND index={index} class={class} known=0 replay={path} msg={}", v.msg);
    1
}

/// Run a range of indexes and print one line per run, for comparing two processes.
fn determinism(a: &Args) -> i32 {
    let (prop, seed, n) = (a.num("prop", 1) as u8, a.num("seed", 1), a.num("runs", 50));
    with_big_stack(move || {
        for i in 0..n {
            let p = gen::gen(prop, seed, i, "quick");
            let mut st = Stats::default();
            let (o, _) = execute(&p, prop, &mut st, false);
            println!("{i} {:016x} {} {}", o.trace, o.events, o.violation.is_some());
        }
    });
    0
}

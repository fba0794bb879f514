//! Minimisation: fewer operations, then recorded frame fates, then fewer fates, then simpler parameters.

use crate::plan::{Fate, Plan};
use crate::stats::{Stats, Violation};
use std::time::{Duration, Instant};

fn attempt(p: &Plan, prop: u8, class: &str) -> Option<(Violation, u64, std::collections::BTreeMap<(u32, u32), Fate>)> {
    let mut st = Stats::default();
    let (o, _) = crate::execute(p, prop, &mut st, false);
    let v = o.violation?;
    (v.class == class).then_some((v, o.trace, o.fates))
}

fn ddmin<T: Clone>(items: Vec<T>, deadline: Instant, mut fails: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = items;
    if cur.is_empty() {
        return cur;
    }
    if fails(&[]) {
        return vec![];
    }
    let mut n = 2usize;
    while cur.len() >= 2 && Instant::now() < deadline {
        let chunk = (cur.len() + n - 1) / n;
        let mut reduced = false;
        let mut i = 0;
        while i < cur.len() && Instant::now() < deadline {
            let mut c = cur[..i].to_vec();
            c.extend_from_slice(&cur[(i + chunk).min(cur.len())..]);
            if !c.is_empty() && fails(&c) {
                cur = c;
                n = (n - 1).max(2);
                reduced = true;
            } else {
                i += chunk;
            }
        }
        if !reduced {
            if n >= cur.len() {
                break;
            }
            n = (n * 2).min(cur.len());
        }
    }
    cur
}

fn generic(plan: &Plan, deadline: Instant, fails: &mut dyn FnMut(&Plan) -> bool) -> Plan {
    let mut best = plan.clone();
    let ops = ddmin(best.ops.clone(), deadline, |ops| {
        let mut p = best.clone();
        p.ops = ops.to_vec();
        fails(&p)
    });
    best.ops = ops;
    // Smaller counts and sizes.
    for i in 0..best.ops.len() {
        for j in 0..best.ops[i].a.len() {
            let v = best.ops[i].a[j];
            for c in [0, 1, v / 8, v / 2] {
                if Instant::now() > deadline {
                    return best;
                }
                if c.abs() >= v.abs() || c == v {
                    continue;
                }
                let mut p = best.clone();
                p.ops[i].a[j] = c;
                if fails(&p) {
                    best = p;
                    break;
                }
            }
        }
    }
    best
}

pub fn shrink(plan: &Plan, prop: u8, v: &Violation, limit: Duration) -> (Plan, Violation, u64) {
    let deadline = Instant::now() + limit;
    let class = v.class.clone();
    let mut best = plan.clone();
    let first = attempt(&best, prop, &class);
    let Some(mut res) = first else {
        // Not repeatable (should not happen): report the original plan.
        return (best, v.clone(), 0);
    };
    let mut f = |p: &Plan| attempt(p, prop, &class).is_some();
    best = generic(&best, deadline, &mut f);
    if let Some(r) = attempt(&best, prop, &class) {
        res = r;
    }
    // Explicit fates.
    let mut p = best.clone();
    p.fates = Some(res.2.clone());
    if let Some(r) = attempt(&p, prop, &class) {
        best = p;
        res = r;
        let items: Vec<_> = best.fates.clone().unwrap().into_iter().collect();
        let base = best.clone();
        let kept = ddmin(items, deadline, |it| {
            let mut q = base.clone();
            q.fates = Some(it.iter().cloned().collect());
            attempt(&q, prop, &class).is_some()
        });
        best.fates = Some(kept.into_iter().collect());
        best = generic(&best, deadline, &mut f);
        if let Some(r) = attempt(&best, prop, &class) {
            res = r;
        }
    }
    // Parameters back to their defaults.
    let keys: Vec<String> = best.p.keys().cloned().collect();
    for k in keys {
        if Instant::now() > deadline || ["kind", "quiet", "end"].contains(&k.as_str()) {
            continue;
        }
        let mut q = best.clone();
        q.p.remove(&k);
        if let Some(r) = attempt(&q, prop, &class) {
            best = q;
            res = r;
        }
    }
    (best, res.0, res.1)
}

/// Does the plan fail (hang, exhaust memory, die) in a process of its own?
pub fn child_fails(p: &Plan, _prop: u8, class: &str, limit: u64) -> bool {
    let dir = std::env::temp_dir().join(format!("uflow-sim-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join("plan.txt");
    let text = format!("expect C{:02} {class} 0\n{}", _prop, p.to_text());
    if std::fs::write(&path, text).is_err() {
        return false;
    }
    let exe = std::env::current_exe().unwrap();
    let st = std::process::Command::new(exe)
        .args(["replay", path.to_str().unwrap(), "--limit", &limit.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    let _ = std::fs::remove_file(&path);
    let _ = std::fs::remove_dir(&dir);
    match st {
        Ok(s) => match class {
            "hang" => s.code() == Some(97) || s.code() == Some(98),
            "memory" => s.code() == Some(98),
            _ => s.code().is_none(),
        },
        Err(_) => false,
    }
}

pub fn shrink_child(plan: &Plan, prop: u8, class: &str, limit: Duration) -> Plan {
    let deadline = Instant::now() + limit;
    let mut f = |p: &Plan| child_fails(p, prop, class, 2);
    if !f(plan) {
        return plan.clone();
    }
    generic(plan, deadline, &mut f)
}

"""Shared by the commands in /verif/bin."""
import hashlib, json, os, re, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.normpath(os.path.join(ROOT, "..", "repo"))
GUARD = "--cfg uflow_verif"


def source_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "src"), os.path.join(ROOT, "sim", "src")):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(ROOT, "sim", "Cargo.toml")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build():
    """Build both profiles of the simulator from the current trees; returns {label: binary}."""
    env = dict(os.environ)
    env["RUSTFLAGS"] = GUARD
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("CARGO_TARGET_DIR", None)
    want = source_hash()
    ps, bins = [], {}
    for label in ("checked", "plain"):
        tgt = os.path.join(ROOT, "target", label)
        bins[label] = os.path.join(tgt, label, "uflow-sim")
        stamp = os.path.join(tgt, "stamp")
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == want and os.path.exists(bins[label]):
            continue
        base = ["cargo"]
        common = ["--offline", "--target-dir", tgt]
        if os.path.isdir(tgt):
            # Never trust time stamps across copies of the tree.
            subprocess.run(base + ["clean", "-p", "uflow", "-p", "uflow-sim", "--profile", label] + common,
                           cwd=os.path.join(ROOT, "sim"), env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = base + ["build", "--locked", "--profile", label] + common
        p = subprocess.Popen(cmd, cwd=os.path.join(ROOT, "sim"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ps.append((p, stamp, cmd))
    for p, stamp, cmd in ps:
        out, _ = p.communicate()
        if p.returncode != 0:
            # One scenario of C14 calls the send rate computation directly; do without it if that has a new interface.
            r = subprocess.run(cmd + ["--no-default-features"], cwd=os.path.join(ROOT, "sim"), env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                print("note: built without the scenario which drives the send rate computation directly", file=sys.stderr)
                open(stamp, "w").write(want)
                continue
            sys.stderr.write(out[-6000:])
            print("no verdict: the simulator does not build against the current tree", file=sys.stderr)
            sys.exit(3)
        open(stamp, "w").write(want)
    return bins


def known_findings(prop):
    out = []
    f = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m[1] == prop:
                out.append(dict(key=m[2], text=m[3]))
    return out


RULES = json.load(open(os.path.join(ROOT, "bin", "rules.json")))


def write_evidence(root, prop, tier, seed, res, found, known, errors, wall, t_build):
    tot = lambda k: sum(r[k] for r in res.values())
    counters = {}
    for r in res.values():
        for k, v in r["counters"].items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max:") else counters.get(k, 0) + v
    scen = {}
    for r in res.values():
        for k, v in r["scenarios"].items():
            scen[k] = scen.get(k, 0) + v
    group = lambda p: {k[len(p):]: v for k, v in sorted(counters.items()) if k.startswith(p)}
    search = max([r["wall_s"] for r in res.values()] or [0])
    runs = tot("runs") if res else 0
    rule = RULES.get(prop, {})
    samples = []
    for label, r in res.items():
        samples += [f"{label}: {s}" for s in sorted(r["samples"], key=lambda s: int(re.search(r"run (\d+)", s)[1]))[:6]]
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "wall_s": round(wall, 2),
        "violations": 1 if found else 0,
        "assumptions": RULES["assumptions"] + rule.get("assumptions", []),
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": tot("traces") if res else 0,
            "rule": RULES["rule"] + " " + rule.get("rule", ""),
            "samples": samples or ["no run completed"],
            "runs_per_build": {k: r["runs"] for k, r in res.items()},
            "runs_per_scenario": scen,
            "runs_per_hour": int(runs / search * 3600) if search else 0,
            "search_wall_s": round(search, 2),
            "build_wall_s": round(t_build, 2),
            "simulated_hours": round((tot("sim_us") if res else 0) / 3.6e9, 3),
            "simulated_events": tot("events") if res else 0,
            "distinct_states": tot("states") if res else 0,
            "distinct_states_measure": RULES["states"],
            "distinct_states_capped": any(r["states_capped"] for r in res.values()),
            "faults_injected": group("fault:"),
            "situations_reached": group("probe:"),
            "largest_values_seen": group("max:"),
            "other_counts": {k: v for k, v in sorted(counters.items()) if ":" not in k},
            "notes_from_runs": group("info:"),
            "determinism": {"runs_repeated": tot("det_checked") if res else 0, "differing": tot("det_bad") if res else 0},
            "library_panics_outside_this_property": tot("panics_ignored") if res else 0,
            "real_code": RULES["real"],
            "stubbed": RULES["stub"],
            "known_findings_seen": known,
            "errors": errors,
        },
    }
    if found:
        ev["coverage"]["violation"] = found
    tmp = os.path.join(root, "evidence", prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(root, "evidence", prop + ".json"))

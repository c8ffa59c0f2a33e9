#!/usr/bin/env python3
"""Decides one property of ruq by deterministic simulation with fault injection.

    check.py PROP [quick|thorough]    search; exit 0 held, 1 VIOLATION, 2 error of the check
    check.py --build                  build the simulator (both profiles)
    check.py --replay FILE            rebuild and replay one failure; exit 1 if it shows again

The simulator (harness/) is rebuilt from /repo's working tree on every call.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
TARGET = os.path.join(HARNESS, "target")
REPLAYS = os.path.join(HERE, "replays")
CORPUS = os.path.join(HERE, "corpus")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known_findings.txt")
PROFILES = {"checked": ["dev", "debug"], "shipped": ["release", "release"]}
WORKERS = [("checked", 5), ("shipped", 3)]

# Runs per worker (8 workers) in the quick tier: about half a minute on 8 cores.
QUICK = {
    "C01": 9000, "C02": 4000, "C03": 2000, "C04": 2500, "C05": 4500, "C06": 1900, "C07": 3500,
    "C08": 8000, "C09": 7000, "C10": 7000, "C11": 7000, "C12": 7000, "C13": 6000, "C14": 3000,
    "C15": 4000, "C16": 1700, "C17": 2200, "C18": 1200,
}
QUICK_CAP = 240      # seconds of search, should the machine be slow
THOROUGH_CAP = 600   # the thorough tier searches this long
MAXVIOL = 12

REAL = [
    "ruq: all of it (Client, EventLoop, poll(), codec, packet encoders and decoders, identifier allocator), compiled from /repo's working tree, unmodified apart from cfg(ruq_sim)",
    "tokio (select!, interval and sleep timers, cooperative budget, current-thread scheduler with paused clock), tokio-util FramedRead/FramedWrite, futures channels, bytes",
]
STUB = [
    "tokio::net::TcpStream and its halves: simulated stream (connection attempt, byte delivery, readiness, short and blocked writes, EOF, errors)",
    "the broker, the application (callers of the handles, reader of notifications), the task scheduler's order and delays",
    "clock_gettime and getrandom: simulated time and seeded bytes",
]


def say(*a):
    print(*a, flush=True)


def die(msg):
    say("ERROR: " + msg)
    sys.exit(2)


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") or k in ("RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "RUSTDOCFLAGS", "RUST_LOG"):
            if k != "CARGO_HOME":
                del e[k]
    e.update(
        RUSTFLAGS="--cfg ruq_sim --cfg tokio_unstable",
        CARGO_TARGET_DIR=TARGET,
        CARGO_NET_OFFLINE="true",
        CARGO_INCREMENTAL="0",
        RUST_BACKTRACE="0",
    )
    return e


def build():
    """Builds both profiles, at the same time, each from ruq's present sources."""
    e = env()
    t0 = time.time()
    cargo = shutil.which("cargo") or os.path.expanduser("~/.cargo/bin/cargo")
    procs = []
    for name, (prof, _) in PROFILES.items():
        # separate directories: cargo locks a target directory while it builds
        pe = dict(e, CARGO_TARGET_DIR=os.path.join(TARGET, name))
        for d in (".fingerprint",):
            # whatever the time stamps say, ruq and the simulator are compiled again
            root = os.path.join(pe["CARGO_TARGET_DIR"], PROFILES[name][1], d)
            if os.path.isdir(root):
                for f in os.listdir(root):
                    if re.match(r"(ruq|ruqsim)-[0-9a-f]+$", f):
                        shutil.rmtree(os.path.join(root, f), ignore_errors=True)
        procs.append((name, subprocess.Popen(
            [cargo, "build", "--offline", "--quiet", "--profile", prof],
            cwd=HARNESS, env=pe, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = None
    for name, p in procs:
        out, _ = p.communicate()
        if p.returncode != 0:
            errs = "\n".join(l for l in out.splitlines())[-4000:]
            bad = f"the {name} build failed:\n{errs}"
    if bad:
        die(bad)
    return time.time() - t0


def binary(name):
    return os.path.join(TARGET, name, PROFILES[name][1], "ruqsim")


def run(name, args, timeout):
    try:
        p = subprocess.run([binary(name)] + [str(a) for a in args], env=env(), cwd=HERE,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, ""


def known(prop):
    """Entries `KNOWN property=<id> class=<violation class> match=<regular expression>: <what fails>`."""
    out = []
    if os.path.exists(FINDINGS):
        for l in open(FINDINGS):
            m = re.match(r"KNOWN property=(\S+) class=(\S+) match=(.*?): (.*)$", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), re.compile(m.group(3)), m.group(4)))
    return out


def is_known(findings, cls, msg):
    return any(c == cls and r.search(msg) for c, r, _ in findings)


def corpus(prop, findings):
    """Scenarios that once failed (on trees before a repair) or exercise a rare corner."""
    files = sorted(os.path.join(CORPUS, f) for f in os.listdir(CORPUS)) if os.path.isdir(CORPUS) else []
    n = 0
    for f in files:
        for name in PROFILES:
            rc, out = run(name, ["replay", f, prop], 200)
            n += 1
            if rc is None or rc not in (0, 1):
                die(f"replaying {f} ({name}) ended with {rc}")
            hits = [l for l in out.splitlines() if l.startswith("REPRODUCED ")]
            hits = [l for l in hits if not is_known(findings, l.split()[1], l)]
            if rc == 1 and hits:
                cls = hits[0].split()[1]
                dst = os.path.join(REPLAYS, f"{prop}-{cls}-corpus-{os.path.basename(f)}")
                text = "".join(l for l in open(f) if not l.startswith(("expect ", "#")))
                text = re.sub(r"^scenario \S+", "scenario " + prop, text, flags=re.M)
                _, trace = run(name, ["trace", f], 200)
                with open(dst, "w") as o:
                    o.write(f"# property {prop} broken: {cls} (corpus scenario {os.path.basename(f)}; binary: {name})\n")
                    o.write(text.rstrip("\n") + f"\nexpect {cls}\n# {hits[0]}\n")
                    o.write("".join(l + "\n" for l in trace.splitlines()[:4000] if l.startswith("#")))
                return n, (dst, cls, hits[0], name)
    return n, None


def batch(prop, seed, tier):
    cap = THOROUGH_CAP if tier == "thorough" else QUICK_CAP
    total = sum(n for _, n in WORKERS)
    ps = []
    k = 0
    for name, n in WORKERS:
        for _ in range(n):
            count = 10**9 if tier == "thorough" else QUICK[prop]
            args = [binary(name), "batch", prop, str(seed), str(k), str(total), str(count), str(cap), str(MAXVIOL)]
            ps.append((name, subprocess.Popen(args, env=env(), cwd=HERE, stdout=subprocess.PIPE,
                                              stderr=subprocess.PIPE, text=True)))
            k += 1
    viol, sums = [], []
    for name, p in ps:
        try:
            out, err = p.communicate(timeout=cap + 150)
        except subprocess.TimeoutExpired:
            p.kill()
            out, err = p.communicate()
        got = False
        for l in out.splitlines():
            f = l.split("\t")
            if f[0] == "VIOL":
                viol.append(dict(cls=f[1], seed=int(f[2]), ops=int(f[3]), msg=f[4], bin=name))
            elif f[0] == "JSON":
                d = json.loads(l[5:])
                d["bin"] = name
                sums.append(d)
                got = True
        if not got and not viol:
            die(f"a search process ({name}) ended with {p.returncode} and no summary:\n{err[-2000:]}")
    return viol, sums


def report(prop, viol, seconds):
    """Minimises the simplest failures and checks that the replay file fails again elsewhere."""
    viol.sort(key=lambda v: (v["ops"], v["seed"]))
    tried, deadline = 0, time.time() + seconds
    for v in viol:
        if tried >= 6:
            break
        tried += 1
        path = os.path.join(REPLAYS, f"{prop}-{v['cls']}-{v['seed']}.txt")
        left = max(10, min(60, deadline - time.time()))
        rc, out = run(v["bin"], ["shrink", prop, v["seed"], v["cls"], path, int(left)], left + 200)
        if rc != 0:
            say(f"note: seed {v['seed']} ({v['cls']}) did not fail again")
            continue
        rc, _ = run(v["bin"], ["replay", path], 200)
        if rc != 1:
            say(f"note: the replay file of seed {v['seed']} ({v['cls']}) does not reproduce")
            continue
        return path, v
    return None


def merge(sums, key):
    m = {}
    for d in sums:
        for k, v in d[key].items():
            m[k] = m.get(k, 0) + v
    return dict(sorted(m.items()))


def evidence(prop, tier, seed, t0, search_s, build_s, sums, ncorpus, nviol):
    stats, withs, ends = merge(sums, "stats"), merge(sums, "runs_with"), merge(sums, "ends")
    runs = sum(d["runs"] for d in sums)
    hashes = set()
    for d in sums:
        hashes.update(d["hashes"])
    samples = [dict(s, binary=d["bin"], replay=f"harness/target/{d['bin']}/{PROFILES[d['bin']][1]}/ruqsim trace {prop} {s['seed']}")
               for d in sums for s in d["samples"]][:12]
    if samples:
        s = samples[0]
        _, txt = run(s["binary"], ["gen", prop, s["seed"]], 60)
        s["scenario"] = txt.splitlines()[:60]
    cov = dict(
        evaluations=runs,
        distinct_nontrivial=len(hashes),
        rule="One evaluation is one simulated run: a scenario (sessions, knobs, timed operations and faults) generated from a seed derived from VERIF_SEED, executed in a process of its own, with every interleaving decided by the seed. A run is non-trivial if the connection was accepted or a fault was injected; two runs are distinct if the hashes of their event traces (reads, writes, deliveries, notifications, calls, ends, with times) differ.",
        samples=samples,
        explored_by_binary={n: sum(d["runs"] for d in sums if d["bin"] == n) for n in PROFILES},
        simulated_steps=sum(d["steps"] for d in sums),
        event_loop_polls=sum(d["polls"] for d in sums),
        simulated_hours=round(sum(d["sim_ms"] for d in sums) / 3.6e6, 2),
        runs_cut_short_by_step_limit=sum(d["truncated"] for d in sums),
        search_seconds=round(search_s, 1),
        build_seconds=round(build_s, 1),
        runs_per_hour=int(runs / max(search_s, 0.1) * 3600),
        seeds_per_hour=int(runs / max(search_s, 0.1) * 3600),
        runs_repeated_to_check_determinism=sum(d["rechecked"] for d in sums),
        runs_that_differed_when_repeated=sum(d["nondeterministic"] for d in sums),
        corpus_replays=ncorpus,
        faults_injected={k[6:]: v for k, v in stats.items() if k.startswith("fault.")},
        runs_with_fault={k[6:]: v for k, v in withs.items() if k.startswith("fault.")},
        rare_conditions_reached={k[6:]: v for k, v in stats.items() if k.startswith("probe.")},
        traffic={k: v for k, v in stats.items() if not k.startswith(("fault.", "probe."))},
        outcomes_of_event_loops=ends,
        components_real=REAL,
        components_stubbed=STUB,
    )
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
             assumptions=[
                 "sampling: a clean batch is evidence, not proof",
                 "the simulated TcpStream behaves as tokio's (readiness, wake-ups, cooperative budget) for all behaviour the client can see",
                 "one thread per event loop poll: data races inside dependencies are out of scope",
             ],
             wall_s=round(time.time() - t0, 1), violations=nviol)
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.{os.getpid()}")
    with open(tmp, "w") as f:
        json.dump(e, f, indent=1)
    os.replace(tmp, os.path.join(EVIDENCE, prop + ".json"))


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1) & (2**63 - 1)
    say(f"property {prop}, tier {tier}, VERIF_SEED {seed}")
    os.makedirs(REPLAYS, exist_ok=True)
    findings = known(prop)
    build_s = build()
    ncorpus, hit = corpus(prop, findings)
    t1 = time.time()
    viol, sums = batch(prop, seed, tier)
    search_s = time.time() - t1
    unknown = [v for v in viol if not is_known(findings, v["cls"], v["msg"])]
    evidence(prop, tier, seed, t0, search_s, build_s, sums, ncorpus, len(unknown) + (1 if hit else 0))
    for _, _, what in findings:
        say(f"KNOWN-FINDING: property={prop} {what}")
    runs = sum(d["runs"] for d in sums)
    say(f"{runs} simulated runs in {search_s:.1f} s, {sum(d['sim_ms'] for d in sums) / 3.6e6:.1f} simulated hours, "
        f"{len(unknown)} failing, build {build_s:.1f} s")
    if unknown:
        classes = {}
        for v in unknown:
            classes[v["cls"]] = classes.get(v["cls"], 0) + 1
        say("failing runs by class: " + ", ".join(f"{k} {n}" for k, n in sorted(classes.items())))
        r = report(prop, unknown, 150)
        if r:
            path, v = r
            say(f"{v['cls']}: {v['msg']}")
            say(f"seed {v['seed']}, binary {v['bin']}; replay with: python3 check.py --replay {path}")
            say(f"VIOLATION property={prop} replay={path}")
            return 1
    if hit:
        path, cls, msg, _ = hit
        say(msg)
        say(f"VIOLATION property={prop} replay={path}")
        return 1
    if unknown:
        die("failures were seen that do not fail again when repeated")
    nd = sum(d["nondeterministic"] for d in sums)
    if nd:
        die(f"{nd} repeated runs differed from their first execution: something escapes the simulator")
    say(f"property {prop} held on everything explored")
    return 0


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        say(f"built in {build():.1f} s")
        return 0
    if a[:1] == ["--replay"] and len(a) == 2:
        build()
        text = open(a[1]).read()
        names = [n for n in PROFILES if f"binary: {n}" in text] or list(PROFILES)
        worst = 0
        for n in names:
            rc, out = run(n, ["replay", os.path.abspath(a[1])], 200)
            say(f"[{n}] " + out.strip())
            worst = max(worst, 2 if rc not in (0, 1) else rc)
        return worst
    if a and a[0] in QUICK:
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER") or "quick"
        if tier not in ("quick", "thorough"):
            die("unknown tier " + tier)
        return check(a[0], tier)
    say(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())

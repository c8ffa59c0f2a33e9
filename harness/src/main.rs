mod exec;
mod gen;
mod mem;
mod mqtt;
mod prng;
mod scenario;
mod seal;
mod shrink;
mod world;

use scenario::Scenario;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;

/// Which violation classes break the named property (see DESIGN.md).
fn counts(prop: &str, class: &str) -> bool {
    if class.starts_with("X.") || class == "C14.livelock" || class == "C14.spin" {
        return true;
    }
    let (own, _) = class.split_once('.').unwrap_or((class, ""));
    if own == prop {
        return true;
    }
    let also: &[&str] = match prop {
        "C01" => &["C06.connection-content", "C14.stuck-read", "C14.stuck-request", "C03.malformed", "C05.stuck-request"],
        "C02" => &["C05.stuck-request", "C14.stuck-request", "C14.starved-request", "C15.refused-sent", "C13.after-disconnect", "C13.overtakes", "C13.unrequested", "C03.malformed"],
        "C03" => &["C02.unrequested", "C13.reason"],
        "C04" => &["C03.malformed"],
        "C05" => &["C14.stuck-request", "C02.order", "C02.duplicate", "C02.unrequested", "C12.unexplained-end", "C13.overtakes"],
        "C06" => &["C08.shown-after-error", "C08.lost-before-error", "C14.stuck-read", "C14.starved-read", "C12.unexplained-end", "C12.wrong-outcome", "C01.first-notification", "C01.unexplained-end"],
        "C07" => &["C03.malformed", "C14.stuck-read", "C14.starved-read"],
        "C08" => &["C01.ended-ok", "C01.not-ended", "C01.early", "C06.unexpected", "C06.lost", "C06.missing", "C06.lost-at-end", "C14.stuck-read"],
        "C09" => &["C14.starved-timer", "C01.connect"],
        "C10" => &["C14.starved-timer", "C12.unexplained-end"],
        "C11" => &[],
        "C12" => &["C08.ended-ok", "C08.not-ended", "C13.wrong-outcome", "C13.not-ended", "C13.after-disconnect", "C10.undetected", "C11.answered", "C11.premature", "C11.no-ping", "C14.stuck-read"],
        "C13" => &["C02.order", "C14.stuck-request", "C05.stuck-request", "C12.not-closed", "C12.unexplained-end"],
        "C14" => &["C05.stuck-request", "C09.gap", "C10.undetected", "C06.missing", "C07.missing-ack", "C12.unexplained-end", "C12.wrong-outcome", "C16.unbounded"],
        "C15" => &["C12.not-closed", "C07.lost-acknowledged"],
        "C16" => return !matches!(own, "C01" | "C03" | "C04" | "C15") || class == "C15.stream-ended-early",
        "C18" => &["C05.stuck-request", "C14.stuck-request"],
        // memory is not told apart by session
        "C17" => return !class.starts_with("C18"),
        _ => &[],
    };
    also.contains(&class)
}

/// The scenario seen by one session alone.
fn project(sc: &Scenario, s: usize) -> Scenario {
    let mut p = sc.clone();
    p.cfg = vec![sc.cfg[s].clone()];
    p.ops.retain(|o| o.s == s);
    for o in &mut p.ops {
        o.s = 0;
    }
    p
}

/// Whether a violation of this class in this session breaks the scenario's property.
fn breaks(sc: &Scenario, class: &str, s: usize) -> bool {
    if !counts(&sc.prop, class) {
        return false;
    }
    if sc.prop == "C17" {
        // only if the session on its own does nothing wrong
        if sc.cfg.len() < 2 {
            return false;
        }
        // a crash or hang names no session: each of them alone has to be fine
        let who: Vec<usize> = if class.starts_with("X.") || class == "C14.livelock" { (0..sc.cfg.len()).collect() } else { vec![s] };
        return who.into_iter().all(|s| exec::eval(&project(sc, s), false).viol.is_empty());
    }
    true
}

fn fails(sc: &Scenario, class: &str) -> bool {
    exec::eval(sc, false).viol.iter().any(|v| v.0 == class && breaks(sc, class, v.3))
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn seed_of(base: u64, prop: &str, i: u64) -> u64 {
    let p: u64 = prop.bytes().fold(0, |a, b| a * 256 + b as u64);
    prng::hash(&[base, p, i]) >> 1
}

/// batch PROP BASE START STEP COUNT SECS MAXVIOL: one worker's share of a search.
fn batch(a: &[String]) {
    let prop = &a[0];
    let n = |i: usize| a[i].parse::<u64>().expect("number");
    let (base, start, step, count, secs, maxv) = (n(1), n(2), n(3), n(4), n(5), n(6));
    let t0 = seal::real_now();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut faulty: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let (mut runs, mut steps, mut polls, mut sim, mut trunc, mut viols, mut nondet, mut rechecked) = (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut samples = vec![];
    let mut ends: BTreeMap<String, u64> = BTreeMap::new();
    let out = std::io::stdout();
    for j in 0..count {
        if seal::real_now() - t0 > secs as f64 {
            break;
        }
        let i = start + j * step;
        let seed = seed_of(base, prop, i);
        let sc = gen::generate(prop, seed);
        let r = exec::eval(&sc, false);
        runs += 1;
        steps += r.steps;
        polls += r.polls;
        sim += r.sim_ms;
        trunc += r.truncated as u64;
        hashes.insert(r.hash);
        let mut trivial = true;
        for (k, v) in &r.stats {
            *stats.entry(k.clone()).or_insert(0) += v;
            if *v > 0 {
                *faulty.entry(k.clone()).or_insert(0) += 1;
            }
            if k == "probe.accepted" || k.starts_with("fault.") {
                trivial = false;
            }
        }
        if !trivial {
            nontrivial.insert(r.hash);
        }
        for e in r.ends.split(' ') {
            if let Some((k, _)) = e.split_once('@') {
                if k == "ok" || k == "dropped" || k == "panic" {
                    *ends.entry(k.into()).or_insert(0) += 1;
                } else {
                    *ends.entry("error".into()).or_insert(0) += 1;
                }
            }
        }
        if j % 40 == 7 {
            rechecked += 1;
            let again = exec::eval(&sc, false).hash;
            if again != r.hash && again != 0 && r.hash != 0 {
                nondet += 1;
            }
        }
        if samples.len() < 3 && j % 211 == 3 {
            samples.push((seed, sc.ops.len(), r.hash, r.steps, r.sim_ms));
        }
        let mut seen: Vec<String> = vec![];
        for v in &r.viol {
            if seen.contains(&v.0) || !breaks(&sc, &v.0, v.3) {
                continue;
            }
            seen.push(v.0.clone());
            // hangs are slow
            viols += if v.0 == "X.hang" { 4 } else { 1 };
            let mut o = out.lock();
            let _ = writeln!(o, "VIOL\t{}\t{}\t{}\t{}", v.0, seed, sc.ops.len(), v.1);
            let _ = o.flush();
        }
        if viols >= maxv {
            break;
        }
    }
    let map = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("\"{}\":{}", esc(k), v)).collect::<Vec<_>>().join(",");
    let mut hs: Vec<String> = nontrivial.iter().map(|h| format!("\"{:x}\"", h)).collect();
    hs.sort();
    println!(
        "JSON\t{{\"runs\":{},\"steps\":{},\"polls\":{},\"sim_ms\":{},\"truncated\":{},\"violations\":{},\"distinct\":{},\"rechecked\":{},\"nondeterministic\":{},\"secs\":{:.3},\"stats\":{{{}}},\"runs_with\":{{{}}},\"ends\":{{{}}},\"samples\":[{}],\"hashes\":[{}]}}",
        runs, steps, polls, sim, trunc, viols, hashes.len(), rechecked, nondet,
        seal::real_now() - t0,
        map(&stats), map(&faulty), map(&ends),
        samples.iter().map(|s| format!("{{\"seed\":{},\"operations\":{},\"trace_hash\":\"{:016x}\",\"steps\":{},\"sim_ms\":{}}}", s.0, s.1, s.2, s.3, s.4)).collect::<Vec<_>>().join(","),
        hs.join(",")
    );
}

fn write_replay(sc: &Scenario, class: &str, path: &str, note: &str) {
    let r = exec::eval(sc, true);
    let mut t = String::new();
    t.push_str(&format!("# {}\n", note));
    t.push_str(&sc.to_text());
    t.push_str(&format!("expect {}\n", class));
    for v in &r.viol {
        t.push_str(&format!("# violation {} at {} ms, session {}: {}\n", v.0, v.2, v.3, v.1));
    }
    t.push_str(&format!("# trace hash {:016x}, {} steps; schedule and fault trace:\n", r.hash, r.steps));
    let n = r.log.len();
    for (i, l) in r.log.iter().enumerate() {
        if n > 3000 && i == 1500 {
            t.push_str(&format!("# ... {} lines left out ...\n", n - 3000));
        }
        if n <= 3000 || i < 1500 || i >= n - 1500 {
            t.push_str(&format!("# {}\n", l));
        }
    }
    std::fs::write(path, t).expect("cannot write the replay file");
}

fn main() {
    world::install_panic_hook();
    world::install_logger();
    let a: Vec<String> = std::env::args().skip(1).collect();
    match a.first().map(|s| s.as_str()) {
        Some("batch") => batch(&a[1..]),
        Some("gen") => print!("{}", gen::generate(&a[1], a[2].parse().expect("seed")).to_text()),
        Some("seed") => println!("{}", seed_of(a[2].parse().unwrap(), &a[1], a[3].parse().unwrap())),
        Some("trace") => {
            // trace PROP SEED | trace FILE
            let sc = if a.len() > 2 { gen::generate(&a[1], a[2].parse().expect("seed")) } else { Scenario::parse(&std::fs::read_to_string(&a[1]).expect("file")).expect("scenario") };
            let r = exec::eval(&sc, true);
            print!("{}", sc.to_text());
            for l in &r.log {
                println!("# {}", l);
            }
            for v in &r.viol {
                println!("# violation {} at {} session {}: {}", v.0, v.2, v.3, v.1);
            }
            println!("# hash {:016x} steps {} polls {} sim {} ms ends {}", r.hash, r.steps, r.polls, r.sim_ms, r.ends);
        }
        // shrink PROP SEED CLASS OUT SECS
        Some("shrink") => {
            let sc = gen::generate(&a[1], a[2].parse().expect("seed"));
            let class = a[3].clone();
            if !fails(&sc, &class) {
                println!("NOT-REPRODUCED");
                std::process::exit(3);
            }
            let f = |s: &Scenario| fails(s, &class);
            let n0 = sc.ops.len();
            let mut sh = shrink::Shrinker { class: class.clone(), until: seal::real_now() + a[5].parse::<f64>().expect("secs"), tried: 0, fails: &f };
            let m = sh.run(sc);
            let tried = sh.tried;
            let note = format!("property {} broken: {} (seed {}, minimised from {} to {} operations in {} runs; binary: {})", a[1], class, a[2], n0, m.ops.len(), tried, if cfg!(debug_assertions) { "checked" } else { "shipped" });
            write_replay(&m, &class, &a[4], &note);
            println!("SHRUNK\t{}\t{}\t{}", n0, m.ops.len(), tried);
        }
        // replay FILE [PROP]: exit 1 if the expected violation (or, without one, any that counts) shows
        Some("replay") => {
            let text = std::fs::read_to_string(&a[1]).expect("cannot read the replay file");
            let mut sc = Scenario::parse(&text).expect("bad replay file");
            if let Some(p) = a.get(2) {
                sc.prop = p.clone();
            }
            let want = text.lines().find_map(|l| l.strip_prefix("expect ").map(|x| x.trim().to_string()));
            let r = exec::eval(&sc, true);
            let mut hit = false;
            for v in &r.viol {
                let c = match &want {
                    Some(w) if a.get(2).is_none() => v.0 == *w && breaks(&sc, &v.0, v.3),
                    _ => breaks(&sc, &v.0, v.3),
                };
                println!("{} {} at {} ms, session {}: {}", if c { "REPRODUCED" } else { "also" }, v.0, v.2, v.3, v.1);
                hit |= c;
            }
            println!("trace hash {:016x} steps {} ends {}", r.hash, r.steps, r.ends);
            if std::env::var_os("RUQSIM_TRACE").is_some() {
                for l in &r.log {
                    println!("{}", l);
                }
            }
            std::process::exit(if hit { 1 } else { 0 });
        }
        _ => {
            eprintln!("usage: ruqsim batch|gen|trace|shrink|replay ...");
            std::process::exit(2);
        }
    }
}

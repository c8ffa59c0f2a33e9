//! Runs each scenario in a forked child of its own, so that a run always starts from the same
//! process state, and a crash, a hang or a leak of the code under test is contained and observed.

use crate::scenario::Scenario;
use crate::world;
use std::collections::BTreeMap;
use std::io::Read;
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

#[derive(Clone, Debug, Default)]
pub struct Rec {
    pub viol: Vec<(String, String, u64, usize)>,
    pub hash: u64,
    pub steps: u64,
    pub polls: u64,
    pub sim_ms: u64,
    pub truncated: bool,
    pub stats: BTreeMap<String, u64>,
    pub ends: String,
    pub log: Vec<String>,
}

/// A run hangs if it spends this much processor time, or so much time asleep, without coming
/// to the next step of the simulation.
const CPU_SECS: u64 = 12;
const WALL_SECS: u32 = 60;
/// A run that goes on but takes longer than this is given up; nothing is concluded from it.
const CUT_SECS: u64 = 90;
const CUT: i32 = 77;
const TICK: u64 = 3;

static LAST: AtomicU64 = AtomicU64::new(u64::MAX);
static SAME: AtomicU64 = AtomicU64::new(0);
static TICKS: AtomicU64 = AtomicU64::new(0);
static LAST_WALL: AtomicU64 = AtomicU64::new(u64::MAX);

fn die(sig: i32) {
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

extern "C" fn on_tick(_: i32) {
    let now = world::STEPS.load(Relaxed);
    if LAST.swap(now, Relaxed) == now {
        if SAME.fetch_add(1, Relaxed) + 1 >= CPU_SECS / TICK {
            die(libc::SIGXCPU)
        }
    } else {
        SAME.store(0, Relaxed);
    }
    if TICKS.fetch_add(1, Relaxed) + 1 >= CUT_SECS / TICK {
        unsafe { libc::_exit(CUT) }
    }
}

extern "C" fn on_alarm(_: i32) {
    let now = world::STEPS.load(Relaxed);
    if LAST_WALL.swap(now, Relaxed) == now {
        die(libc::SIGALRM)
    }
    unsafe { libc::alarm(WALL_SECS / 2) };
}

/// Makes a run that hangs end itself.
unsafe fn watch() {
    let on = |sig: i32, f: extern "C" fn(i32)| {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = f as *const () as usize;
        a.sa_flags = libc::SA_RESTART | libc::SA_NODEFER;
        libc::sigaction(sig, &a, std::ptr::null_mut());
    };
    on(libc::SIGPROF, on_tick);
    on(libc::SIGALRM, on_alarm);
    let t = libc::timeval { tv_sec: TICK as libc::time_t, tv_usec: 0 };
    let it = libc::itimerval { it_interval: t, it_value: t };
    libc::setitimer(libc::ITIMER_PROF, &it, std::ptr::null_mut());
    libc::alarm(WALL_SECS / 2);
}

fn one_line(s: &str) -> String {
    s.chars().map(|c| if c == '\n' || c == '\t' || c == '\r' { ' ' } else { c }).take(600).collect()
}

pub fn eval(sc: &Scenario, trace: bool) -> Rec {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0, "pipe");
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            let lim = |r, v: u64| {
                let l = libc::rlimit { rlim_cur: v, rlim_max: v + 2 };
                libc::setrlimit(r, &l);
            };
            lim(libc::RLIMIT_CPU, 2 * CUT_SECS);
            let l = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            watch();
            let out = world::run(sc, trace);
            let mut t = format!("run {} {} {} {} {}\n", out.hash, out.steps, out.polls, out.sim_ms, out.truncated as u8);
            for v in &out.viol {
                t.push_str(&format!("v\t{}\t{}\t{}\t{}\n", v.class, v.at, v.s, one_line(&v.msg)));
            }
            for (k, n) in &out.stats {
                t.push_str(&format!("s\t{}\t{}\n", k, n));
            }
            t.push_str(&format!("e\t{}\n", one_line(&out.ends)));
            for l in &out.log {
                t.push_str(&format!("l\t{}\n", one_line(l)));
            }
            t.push_str("done\n");
            let b = t.as_bytes();
            let mut o = 0;
            while o < b.len() {
                let n = libc::write(fds[1], b[o..].as_ptr() as *const _, b.len() - o);
                if n <= 0 {
                    break;
                }
                o += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut f = std::fs::File::from_raw_fd(fds[0]);
        let mut t = vec![];
        let _ = f.read_to_end(&mut t);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let t = String::from_utf8_lossy(&t);
        let mut r = Rec::default();
        let mut done = false;
        for line in t.lines() {
            let mut w = line.split('\t');
            match w.next() {
                Some("v") => {
                    let c = w.next().unwrap_or("").to_string();
                    let at = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    let s = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    r.viol.push((c, w.next().unwrap_or("").to_string(), at, s));
                }
                Some("s") => {
                    let k = w.next().unwrap_or("").to_string();
                    let n: i64 = w.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                    r.stats.insert(k, n.max(0) as u64);
                }
                Some("e") => r.ends = w.next().unwrap_or("").into(),
                Some("l") => r.log.push(w.next().unwrap_or("").into()),
                Some("done") => done = true,
                Some(x) if x.starts_with("run ") => {
                    let v: Vec<u64> = x[4..].split(' ').filter_map(|y| y.parse().ok()).collect();
                    if v.len() == 5 {
                        r.hash = v[0];
                        r.steps = v[1];
                        r.polls = v[2];
                        r.sim_ms = v[3];
                        r.truncated = v[4] > 0;
                    }
                }
                _ => {}
            }
        }
        if !done {
            let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
            let (c, m) = match sig {
                libc::SIGXCPU | libc::SIGALRM | libc::SIGKILL => ("X.hang", format!("the run did not come to an end: the event loop does not return ({} s of processor time)", CPU_SECS)),
                0 if libc::WEXITSTATUS(st) == CUT => {
                    r = Rec { truncated: true, ..Rec::default() };
                    return r;
                }
                0 => ("X.crash", format!("the process exited with status {}", libc::WEXITSTATUS(st))),
                s => ("X.crash", format!("the process was ended by signal {}", s)),
            };
            r.viol.push((c.into(), m, 0, 0));
        }
        r
    }
}

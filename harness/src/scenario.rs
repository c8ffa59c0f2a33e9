//! A scenario is everything that decides a run: configuration, scheduler seed and the timed
//! operations (requests, broker behaviour, faults). Its text form is the replay file.

use std::fmt::Write as _;

macro_rules! kinds {
    ($($v:ident $n:literal),* $(,)?) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
        pub enum K { $($v),* }
        impl K {
            pub fn name(self) -> &'static str { match self { $(K::$v => $n),* } }
            pub fn parse(s: &str) -> Option<K> { match s { $($n => Some(K::$v),)* _ => None } }
        }
    };
}

kinds! {
    // application
    Pub "pub", Sub "sub", Unsub "unsub", Disc "disc", Clone "clone", Drop "drop", DropAll "dropall",
    Flood "flood", InFlood "inflood", Pause "pause", Resume "resume", ConsDelay "consdelay",
    DropRx "droprx", DropLoop "droploop",
    // broker
    BPub "bpub", BBurst "bburst", BRaw "braw", BDisc "bdisc", Hold "hold", Release "release",
    OddAck "oddack", PingDrop "pingdrop", PingDelay "pingdelay", PingResp "pingresp",
    // network
    Eof "eof", Reset "reset", WErr "werr", TakeStall "takestall", NetDelay "netdelay",
    // scheduling
    Stall "stall", Jump "jump", Spur "spur",
}

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub at: u64,
    pub s: usize,
    pub k: K,
    pub a: [u32; 6],
    pub data: Vec<u8>,
}

impl Op {
    pub fn new(at: u64, s: usize, k: K, a: &[u32]) -> Op {
        let mut x = [0; 6];
        x[..a.len()].copy_from_slice(a);
        Op { at, s, k, a: x, data: vec![] }
    }
}

macro_rules! cfg {
    ($($f:ident = $d:literal),* $(,)?) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct Cfg { $(pub $f: u32),* }
        impl Default for Cfg { fn default() -> Self { Cfg { $($f: $d),* } } }
        impl Cfg {
            pub const NAMES: &'static [&'static str] = &[$(stringify!($f)),*];
            pub fn get(&self, n: &str) -> u32 { match n { $(stringify!($f) => self.$f,)* _ => panic!("cfg {}", n) } }
            pub fn set(&mut self, n: &str, v: u32) -> bool { match n { $(stringify!($f) => { self.$f = v; true })* _ => false } }
        }
    };
}

cfg! {
    // connection: delay, error (0 none, 1 refused, 2 timed out, 3 unreachable)
    conn_delay = 0, conn_err = 0,
    // answer to CONNECT: 0 success, 1 success with properties, 2 session present, 3 refusal (code in
    // connack_arg), 4 none, 5 another packet (which: connack_arg), 6 success twice
    connack = 0, connack_arg = 0, connack_delay = 1,
    // network: one-way latency, jitter, segmentation of broker bytes (0 whole, 1 single bytes,
    // 2 small pieces, 3 one random cut, 4 coalesced, 5 within the header)
    latency = 1, jitter = 0, seg = 0,
    // transport: send buffer bytes, short writes (0 no, 1 random), ms between broker reads, broker
    // read size (0 all, else at most)
    wcap = 65536, wshort = 0, take_ms = 0, take_max = 0,
    // broker: delay of acknowledgements and its spread, form 0..2 (3 random), reason (0 success, 1 mixed)
    ack_delay = 1, ack_jitter = 0, ack_form = 0, ack_reason = 0, ping_delay = 1,
    // application: ms per notification, take notifications from inside socket calls
    cons_ms = 0, inline_cons = 0,
    // executor: max extra delay before a woken loop runs, fresh waker for every poll
    poll_delay = 0, fresh_waker = 0,
    // the application keeps the event loop value after it ended
    keep_loop = 0,
    // percentage of the loop's socket calls (and log messages, if they are asked for) during which
    // something else happens at the same time
    mid = 0,
    // the broker is the one session 0 has, too
    same_addr = 0,
    // the application has installed a logger: it formats every message of the client
    logged = 0,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Scenario {
    pub prop: String,
    pub seed: u64,
    pub end: u64,
    pub settle: u64,
    pub idmax: u32,
    pub bias: u32,
    pub cfg: Vec<Cfg>,
    pub ops: Vec<Op>,
}

impl Scenario {
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        let _ = writeln!(s, "scenario {} seed={} end={} settle={} idmax={} bias={}", self.prop, self.seed, self.end, self.settle, self.idmax, self.bias);
        let d = Cfg::default();
        for c in &self.cfg {
            let _ = write!(s, "session");
            for n in Cfg::NAMES {
                if c.get(n) != d.get(n) {
                    let _ = write!(s, " {}={}", n, c.get(n));
                }
            }
            s.push('\n');
        }
        for o in &self.ops {
            let last = o.a.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
            let _ = write!(s, "op {} s{} {}", o.at, o.s, o.k.name());
            for x in &o.a[..last] {
                let _ = write!(s, " {}", x);
            }
            if !o.data.is_empty() {
                let _ = write!(s, " x");
                for b in &o.data {
                    let _ = write!(s, "{:02x}", b);
                }
            }
            s.push('\n');
        }
        s
    }

    pub fn parse(text: &str) -> Result<Scenario, String> {
        let mut sc = Scenario { prop: String::new(), seed: 0, end: 0, settle: 0, idmax: 0, bias: 0, cfg: vec![], ops: vec![] };
        for line in text.lines() {
            let line = line.trim();
            let mut w = line.split_whitespace();
            match w.next() {
                Some("scenario") => {
                    sc.prop = w.next().ok_or("no property")?.into();
                    for kv in w {
                        let (k, v) = kv.split_once('=').ok_or("bad field")?;
                        let v: u64 = v.parse().map_err(|_| format!("bad number {}", kv))?;
                        match k {
                            "seed" => sc.seed = v,
                            "end" => sc.end = v,
                            "settle" => sc.settle = v,
                            "idmax" => sc.idmax = v as u32,
                            "bias" => sc.bias = v as u32,
                            _ => return Err(format!("unknown field {}", k)),
                        }
                    }
                }
                Some("session") => {
                    let mut c = Cfg::default();
                    for kv in w {
                        let (k, v) = kv.split_once('=').ok_or("bad knob")?;
                        if !c.set(k, v.parse().map_err(|_| "bad knob value")?) {
                            return Err(format!("unknown knob {}", k));
                        }
                    }
                    sc.cfg.push(c);
                }
                Some("op") => {
                    let at = w.next().and_then(|x| x.parse().ok()).ok_or("bad op time")?;
                    let s = w.next().and_then(|x| x.strip_prefix('s')).and_then(|x| x.parse().ok()).ok_or("bad op session")?;
                    let k = w.next().and_then(K::parse).ok_or_else(|| format!("bad op kind in {:?}", line))?;
                    let mut o = Op::new(at, s, k, &[]);
                    let mut n = 0;
                    for x in w {
                        if let Some(h) = x.strip_prefix('x') {
                            o.data = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap_or(0)).collect();
                        } else {
                            if n >= 6 {
                                return Err("too many op arguments".into());
                            }
                            o.a[n] = x.parse().map_err(|_| "bad op argument")?;
                            n += 1;
                        }
                    }
                    sc.ops.push(o);
                }
                _ => {} // comments, expectations, traces
            }
        }
        if sc.cfg.is_empty() {
            return Err("no session".into());
        }
        let n = sc.cfg.len();
        if sc.ops.iter().any(|o| o.s >= n) {
            return Err("operation names a session that does not exist".into());
        }
        Ok(sc)
    }

    pub fn sort(&mut self) {
        self.ops.sort_by_key(|o| o.at);
    }
}

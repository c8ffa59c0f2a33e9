//! Scenario generation. Every run of every check comes from here: a profile chosen by the
//! property, filled in from one seed. Profiles differ in which operations, faults and knobs they
//! favour; what they share is that everything is drawn from the seed.

use crate::mqtt::{self, InPub, Prop};
use crate::prng::{hash, Rng};
use crate::world::{EXACT, SHARED};
use crate::scenario::{Cfg, Op, Scenario, K};

pub const KA: u64 = 8000;

struct G {
    r: Rng,
    sc: Scenario,
}

fn base(prop: &str, seed: u64) -> G {
    let mut r = Rng::new(hash(&[seed, 0xA11CE]));
    let bias = if r.pct(40) { 0 } else { r.range(1, 6) as u32 };
    G {
        r,
        sc: Scenario { prop: prop.into(), seed, end: 1000, settle: 9000, idmax: 0, bias, cfg: vec![Cfg::default()], ops: vec![] },
    }
}

/// Ways of spreading operations over the run.
struct Times {
    moments: Vec<u64>,
    spread: u64,
}

impl Times {
    fn pick(&self, r: &mut Rng) -> u64 {
        let m = *r.pick(&self.moments);
        m + if self.spread == 0 || r.pct(50) { 0 } else { r.below(self.spread + 1) }
    }
}

impl G {
    fn pct(&mut self, p: u32) -> bool {
        self.r.pct(p)
    }
    fn op(&mut self, at: u64, s: usize, k: K, a: &[u32]) {
        self.sc.ops.push(Op::new(at, s, k, a));
    }
    fn raw(&mut self, at: u64, s: usize, data: Vec<u8>) {
        let mut o = Op::new(at, s, K::BRaw, &[]);
        o.data = data;
        self.sc.ops.push(o);
    }
    fn n(&mut self, lo: u64, hi: u64) -> u32 {
        self.r.range(lo, hi) as u32
    }
    fn of(&mut self, v: &[u32]) -> u32 {
        *self.r.pick(v)
    }

    // ---------------------------------------------------------------- knobs

    fn net_knobs(&mut self, s: usize, hard: bool) {
        let p = if hard { 60 } else { 30 };
        if self.pct(p) {
            self.sc.cfg[s].latency = self.of(&[0, 1, 2, 5, 30, 200]);
        }
        if self.pct(p) {
            self.sc.cfg[s].jitter = self.of(&[1, 3, 20, 100]);
        }
        if self.pct(p) {
            self.sc.cfg[s].seg = self.n(1, 5);
        }
        if self.pct(p) {
            let v = self.of(&[1, 2, 3, 5, 7, 16, 50, 64, 256, 1000, 4096, 20000]);
            self.sc.cfg[s].wcap = v;
            if v < 50 && self.pct(50) {
                self.sc.cfg[s].take_max = self.of(&[0, 1, 3, 10]);
            }
        }
        if self.pct(p) {
            self.sc.cfg[s].wshort = 1;
        }
        if self.pct(p / 2) {
            self.sc.cfg[s].take_ms = self.of(&[1, 2, 10]);
            // a transfer that cannot finish within the run teaches nothing
            if self.sc.cfg[s].wcap < 256 {
                self.sc.cfg[s].wcap = self.of(&[64, 256, 1000]);
            }
            self.sc.cfg[s].take_max = 0;
        }
    }

    fn peer_knobs(&mut self, s: usize) {
        if self.pct(30) {
            self.sc.cfg[s].conn_delay = self.of(&[0, 1, 3, 100, 3000]);
        }
        if self.pct(30) {
            self.sc.cfg[s].connack = self.of(&[1, 1, 2]);
        }
        if self.pct(30) {
            self.sc.cfg[s].connack_delay = self.of(&[0, 1, 5, 200, 5000]);
        }
        if self.pct(50) {
            self.sc.cfg[s].ack_delay = self.of(&[0, 0, 1, 5, 50, 500, 3000]);
        }
        if self.pct(40) {
            self.sc.cfg[s].ack_jitter = self.of(&[1, 5, 100, 2000]);
        }
        if self.pct(50) {
            self.sc.cfg[s].ack_form = self.of(&[1, 2, 3, 3, 3]);
        }
        if self.pct(40) {
            self.sc.cfg[s].ack_reason = 1;
        }
        if self.pct(30) {
            self.sc.cfg[s].ping_delay = self.of(&[0, 2, 100, 1000, 4000, 7500]);
        }
        if self.pct(25) {
            self.sc.cfg[s].cons_ms = self.of(&[1, 5, 40]);
        }
        if self.pct(25) {
            self.sc.cfg[s].inline_cons = 1;
        }
        if self.pct(25) {
            self.sc.cfg[s].poll_delay = self.of(&[1, 3, 20, 50]);
        }
        if self.pct(25) {
            self.sc.cfg[s].fresh_waker = 1;
        }
    }

    fn times(&mut self, end: u64) -> Times {
        let mut moments = vec![];
        let n = self.r.range(1, 8);
        let due = self.pct(25);
        for _ in 0..n {
            if due && end > KA && self.pct(60) {
                let k = self.r.range(1, end / KA);
                moments.push((k * KA + self.r.range(0, 8)).saturating_sub(2));
            } else {
                moments.push(self.r.below(end + 1));
            }
        }
        if self.pct(40) {
            moments.push(0);
        }
        let spread = *self.r.pick(&[0, 0, 2, 10, 100, 1000]);
        Times { moments, spread }
    }

    // ---------------------------------------------------------------- sizes

    fn topic_len(&mut self) -> u32 {
        match self.r.weighted(&[50, 25, 10, 4, 3, 2, 1]) {
            0 => 0,
            1 => self.n(4, 60),
            2 => self.n(110, 135),
            3 => self.n(16_360, 16_390),
            4 => self.of(&[65_534, 65_535]),
            5 => 65_536,
            _ => self.n(65_537, 140_000),
        }
    }
    fn payload_len(&mut self) -> u32 {
        if self.pct(20) {
            return self.exact_len();
        }
        match self.r.weighted(&[15, 40, 20, 8, 5, 3, 1]) {
            0 => 0,
            1 => self.n(1, 60),
            2 => self.n(95, 135),
            3 => self.n(16_340, 16_390),
            4 => self.n(65_500, 65_560),
            5 => self.n(60_000, 150_000),
            _ => self.n(2_097_110, 2_097_160),
        }
    }
    /// Payload size that makes the packet's remaining length a critical one.
    fn exact_len(&mut self) -> u32 {
        let n = match self.r.weighted(&[30, 20, 25, 12, 8, 3]) {
            0 => self.n(124, 132),
            1 => 128 * self.n(1, 130),
            2 => 16_384 * self.n(1, 7) + self.n(0, 2) - 1,
            3 => 8_192 * self.n(1, 3) - self.n(0, 8) + 2,
            4 => 65_536 + self.n(0, 8) - 4,
            _ => (1 << 21) + self.n(0, 3) - 2,
        };
        EXACT as u32 + n
    }
    /// Content shared with other requests or messages.
    fn shared(&mut self) -> u32 {
        let top = self.of(&[7, 7, 15]);
        SHARED as u32 + self.n(0, top as u64) + 16 * self.of(&[0, 0, 1])
    }
    fn small_payload(&mut self) -> u32 {
        match self.r.weighted(&[6, 74, 20]) {
            0 => 0,
            1 => self.n(0, 30),
            _ => self.n(90, 300),
        }
    }
    fn prop_mask(&mut self, big: bool) -> u32 {
        if self.pct(40) {
            return 0;
        }
        let class = if big { self.r.weighted(&[50, 10, 15, 6, 4, 4, 2, 9]) } else { self.r.weighted(&[60, 15, 15, 0, 0, 0, 0, 10]) };
        let many = if self.pct(if big { 12 } else { 4 }) { self.n(1, 7) } else { 0 };
        self.n(0, 31) | (class as u32) << 8 | many << 11
    }

    // ---------------------------------------------------------------- single operations

    fn request(&mut self, at: u64, s: usize, big: bool) {
        let h = self.n(0, 3);
        if self.pct(12) {
            // the same request again and again
            let t = self.shared();
            let k = *self.r.pick(&[K::Pub, K::Pub, K::Sub, K::Unsub]);
            let q = if k == K::Unsub { 0 } else { self.n(0, 1) };
            let n = self.of(&[1, 1, 2, 4]);
            for _ in 0..n {
                self.op(at, s, k, &[h, q, t, 3, 1, 0]);
            }
            return;
        }
        match self.r.weighted(&[30, 30, 2, 15, 12, 3]) {
            q @ 0..=2 => {
                let t = if big { self.topic_len() } else { self.of(&[0, 0, 12]) };
                let p = if big { self.payload_len() } else { self.small_payload() };
                let form = self.n(0, 1);
                let m = self.prop_mask(big);
                self.op(at, s, K::Pub, &[h, q as u32, t, p, form, m]);
            }
            3 => {
                let q = self.n(0, 2);
                let t = if big { self.topic_len() } else { self.of(&[0, 0, 12]) };
                self.op(at, s, K::Sub, &[h, q, t]);
            }
            4 => {
                let t = if big { self.topic_len() } else { self.of(&[0, 0, 12]) };
                self.op(at, s, K::Unsub, &[h, 0, t]);
            }
            _ => {
                let q = self.of(&[0, 1, 3, 4]);
                let n = self.of(&[3, 20, 50, 110]);
                let spread = self.n(0, 1);
                let style = self.of(&[0, 0, 1, 100]);
                self.op(at, s, K::Flood, &[h, q, n, 3, spread, style]);
            }
        }
    }

    fn incoming(&mut self, at: u64, s: usize, big: bool) {
        if self.pct(12) {
            let q = self.of(&[0, 1, 3]);
            let n = self.of(&[3, 20, 60, 105, 130]);
            self.op(at, s, K::BBurst, &[q, n, 4]);
            return;
        }
        let q = self.n(0, 1);
        if self.pct(12) {
            let t = self.shared();
            let n = self.of(&[1, 1, 2, 4]);
            let f = self.n(0, 3) | 16;
            let id = if self.pct(20) { self.of(&[1, 7]) } else { 0 };
            for _ in 0..n {
                self.op(at, s, K::BPub, &[q, t, 3, 0, f, id]);
            }
            return;
        }
        let t = if big && self.pct(30) { self.topic_len().min(65_535) } else { self.n(0, 20) };
        let p = if big { self.payload_len() } else { self.small_payload() };
        let m = self.prop_mask(big);
        let flags = self.n(0, 3) | self.n(0, 2) << 4;
        let id = if self.pct(20) { self.of(&[1, 65_535, 256, 255, 7]) } else { 0 };
        self.op(at, s, K::BPub, &[q, t, p, m, flags, id]);
    }

    fn odd_ack(&mut self, at: u64, s: usize) {
        let kind = self.n(0, 2);
        let mode = self.of(&[0, 1, 2, 3, 4]);
        if mode == 4 {
            let (x, y, z) = (self.n(0, 5000), self.n(0, 3), self.n(0, 7));
            self.op(at, s, K::OddAck, &[kind, 4, x, y, z]);
            return;
        }
        let a2 = if mode == 1 { self.of(&[1, 2, 3, 4, 5, 8, 20, 65_535]) } else { self.n(0, 5) };
        self.op(at, s, K::OddAck, &[kind, mode, a2]);
    }

    fn end_fault(&mut self, at: u64, s: usize) {
        match self.r.below(4) {
            0 => {
                let d = if self.pct(60) { 0 } else { self.n(1, 20) };
                self.op(at, s, K::Eof, &[d]);
            }
            1 => {
                let d = if self.pct(60) { 0 } else { self.n(1, 20) };
                let e = if self.pct(50) { 0 } else { self.n(1, 10) };
                self.op(at, s, K::Reset, &[d, e]);
            }
            2 => {
                let e = if self.pct(50) { 0 } else { self.n(1, 10) };
                self.op(at, s, K::WErr, &[e])
            }
            _ => self.bdisc(at, s),
        }
    }

    fn bdisc(&mut self, at: u64, s: usize) {
        let reason = if self.pct(35) { 0 } else { self.r.pick(mqtt::DISCONNECT_REASONS).0 as u32 };
        let form = if reason == 0 { self.n(0, 2) } else { self.n(1, 2) };
        let close = self.n(0, 1);
        self.op(at, s, K::BDisc, &[reason, form, close]);
    }

    fn stall(&mut self, at: u64, s: usize) {
        let k = *self.r.pick(&[K::TakeStall, K::NetDelay, K::Stall, K::Stall]);
        let d = match self.r.below(5) {
            0 => self.n(1, 50),
            1 => self.n(50, 2000),
            2 => self.n(7_900, 8_100),
            3 => self.n(2_000, 7_900),
            _ => self.n(8_100, 40_000),
        };
        self.op(at, s, k, &[d]);
    }

    /// A mixture of everything.
    fn mix(&mut self, s: usize, count: u64, t: &Times, big: bool, faults: bool) {
        let w_req = *self.r.pick(&[0, 10, 30, 30]);
        let w_in = *self.r.pick(&[0, 10, 30, 30]);
        let w_odd = if faults { *self.r.pick(&[0, 0, 3, 10]) } else { 0 };
        let w_hold = if faults { *self.r.pick(&[0, 5]) } else { 0 };
        let w_stall = if faults { *self.r.pick(&[0, 0, 4]) } else { 0 };
        let w_handles = *self.r.pick(&[0, 0, 3]);
        let w_cons = if faults { *self.r.pick(&[0, 0, 4]) } else { 0 };
        let w = [w_req, w_in, w_odd, w_hold, w_stall, w_handles, w_cons, 1];
        for _ in 0..count {
            let at = t.pick(&mut self.r);
            match self.r.weighted(&w) {
                0 => self.request(at, s, big),
                1 => self.incoming(at, s, big),
                2 => self.odd_ack(at, s),
                3 => {
                    if self.pct(50) {
                        self.op(at, s, K::Hold, &[1]);
                    } else {
                        let o = self.n(0, 2);
                        let m = self.of(&[0, 0, 1, 2, 5]);
                        self.op(at, s, K::Release, &[o, m]);
                        if self.pct(50) {
                            self.op(at, s, K::Hold, &[0]);
                        }
                    }
                }
                4 => self.stall(at, s),
                5 => {
                    let h = self.n(0, 3);
                    let k = *self.r.pick(&[K::Clone, K::Clone, K::Clone, K::Drop]);
                    self.op(at, s, k, &[h]);
                }
                6 => {
                    if self.pct(60) {
                        self.op(at, s, K::Pause, &[]);
                        let d = self.r.range(1, 3000);
                        self.op(at + d, s, K::Resume, &[]);
                    } else {
                        let d = self.of(&[0, 1, 10, 100]);
                        self.op(at, s, K::ConsDelay, &[d]);
                    }
                }
                _ => self.op(at, s, K::Spur, &[]),
            }
        }
    }

    fn span(&mut self) -> u64 {
        match self.r.weighted(&[30, 30, 30, 10]) {
            0 => self.r.range(5, 200),
            1 => self.r.range(200, 4000),
            2 => self.r.range(4000, 26_000),
            _ => self.r.range(26_000, 80_000),
        }
    }
}

// -------------------------------------------------------------------- profiles

fn general(g: &mut G, s: usize) {
    if s == 0 {
        g.sc.end = g.span();
    }
    let hard = g.pct(50);
    g.net_knobs(s, hard);
    g.peer_knobs(s);
    if g.pct(30) && s == 0 {
        g.sc.idmax = g.of(&[1, 2, 3, 5, 10, 40]);
    }
    let end = g.sc.end;
    let t = g.times(end);
    let n = *g.r.pick(&[2, 5, 10, 25, 60]);
    let big = g.pct(20);
    let faults = g.pct(70);
    g.mix(s, n, &t, big, faults);
    if g.pct(45) {
        let at = t.pick(&mut g.r);
        match g.r.below(8) {
            0..=2 => g.end_fault(at, s),
            3 => g.op(at, s, K::Disc, &[0]),
            4 => {
                let a = g.n(0, 5);
                g.op(at, s, K::DropLoop, &[a])
            }
            5 => g.op(at, s, K::DropRx, &[]),
            6 => g.op(at, s, K::DropAll, &[]),
            _ => {
                let b = bad_packet(&mut g.r);
                g.raw(at, s, b);
            }
        }
    }
}

fn startup(g: &mut G) {
    g.net_knobs(0, true);
    g.peer_knobs(0);
    g.sc.end = g.r.range(1, 3000);
    if g.pct(10) {
        g.sc.cfg[0].conn_err = g.of(&[1, 2, 3, 9]);
    }
    if g.pct(15) {
        // the network or the broker takes its time
        for _ in 0..2 {
            let d = g.of(&[8000, 9000, 11_000, 16_001, 31_000, 61_000, 130_000, 700_000, 4_000_000]);
            if g.pct(50) {
                g.sc.cfg[0].conn_delay = d;
            } else {
                g.sc.cfg[0].connack_delay = d;
            }
        }
        g.sc.end += (g.sc.cfg[0].conn_delay + g.sc.cfg[0].connack_delay) as u64;
    }
    let end = g.sc.end;
    match g.r.below(10) {
        0 | 1 => {
            g.sc.cfg[0].connack = 3;
            g.sc.cfg[0].connack_arg = g.of(&[128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 140, 144, 149, 151, 153, 154, 155, 156, 157, 159]);
        }
        2 => {
            g.sc.cfg[0].connack = 5;
            g.sc.cfg[0].connack_arg = g.n(0, 7);
        }
        3 => g.sc.cfg[0].connack = 4,
        4 => {
            g.sc.cfg[0].connack = 4;
            let at = g.r.below(end + 1);
            let b = match g.r.below(4) {
                0 => bad_packet(&mut g.r),
                1 => {
                    let mut b = mqtt::connack(0, 0, &[]);
                    let i = g.r.below(b.len() as u64) as usize;
                    b[i] ^= 1 << g.r.below(8);
                    b
                }
                2 => {
                    let b = mqtt::connack(0, 0, &[Prop::Pair(0x26, b"k".to_vec(), b"v".to_vec())]);
                    let n = g.r.range(1, b.len() as u64 - 1) as usize;
                    b[..n].to_vec()
                }
                _ => good_packet(&mut g.r),
            };
            g.raw(at, 0, b);
        }
        5 => g.sc.cfg[0].connack = 6,
        _ => {}
    }
    let t = Times { moments: vec![0, 0, 1, 2, 3, g.sc.cfg[0].conn_delay as u64 + g.sc.cfg[0].connack_delay as u64, end / 2], spread: 3 };
    let n = g.r.range(0, 12);
    for _ in 0..n {
        let at = t.pick(&mut g.r);
        g.request(at, 0, false);
    }
    if g.pct(40) {
        let at = t.pick(&mut g.r);
        if g.pct(50) {
            let d = g.of(&[0, 0, 1, 2, 3, 4]);
            let k = *g.r.pick(&[K::Eof, K::Reset]);
            g.op(at, 0, k, &[d]);
        } else {
            g.end_fault(at, 0);
        }
    }
    for _ in 0..g.r.below(3) {
        let at = t.pick(&mut g.r);
        let k = *g.r.pick(&[K::Spur, K::DropRx, K::DropAll, K::Drop, K::Clone, K::Disc, K::Stall, K::TakeStall, K::NetDelay, K::DropLoop, K::PingResp]);
        let a = if matches!(k, K::Stall | K::TakeStall | K::NetDelay) { g.n(1, 2000) } else { 0 };
        g.op(at, 0, k, &[a]);
    }
    if g.pct(30) {
        // a message sent along with the CONNACK or before it
        let at = t.pick(&mut g.r);
        let q = g.n(0, 1);
        let fl = g.of(&[0, 8]);
        g.op(at, 0, K::BPub, &[q, 0, 5, 0, fl, 0]);
    }
}

fn requests(g: &mut G, big: bool) {
    g.net_knobs(0, true);
    g.peer_knobs(0);
    g.sc.end = g.span();
    let end = g.sc.end;
    let t = g.times(end);
    for _ in 0..g.r.below(4) {
        g.op(0, 0, K::Clone, &[0]);
    }
    let n = *g.r.pick(&[3, 10, 30, 80]);
    for _ in 0..n {
        let at = t.pick(&mut g.r);
        if g.pct(12) {
            g.incoming(at, 0, false);
        } else {
            g.request(at, 0, big);
        }
    }
    for _ in 0..g.r.below(4) {
        let at = t.pick(&mut g.r);
        g.stall(at, 0);
    }
    if g.pct(30) {
        let at = t.pick(&mut g.r);
        g.end_fault(at, 0);
    }
    if g.pct(15) {
        let at = t.pick(&mut g.r);
        g.op(at, 0, K::Disc, &[1]);
    }
    if g.pct(15) {
        let at = t.pick(&mut g.r);
        g.op(at, 0, K::DropRx, &[]);
    }
    if g.pct(15) {
        let at = t.pick(&mut g.r);
        g.op(at, 0, K::DropAll, &[]);
    }
}

fn ids(g: &mut G) {
    g.sc.idmax = *g.r.pick(&[1, 2, 2, 3, 3, 4, 5, 6, 8, 12, 20, 60, 100, 150]);
    let m = g.sc.idmax as u64;
    if g.pct(40) {
        g.net_knobs(0, false);
    }
    g.sc.cfg[0].ack_delay = g.of(&[0, 0, 1, 5, 50]);
    if g.pct(60) {
        g.sc.cfg[0].ack_jitter = g.of(&[1, 5, 100]);
    }
    g.sc.cfg[0].ack_form = 3;
    g.sc.cfg[0].ack_reason = g.n(0, 1);
    g.sc.end = g.r.range(50, 2500);
    let (end, mut at) = (g.sc.end, 5);
    let odd = g.pct(60);
    let bursts = g.r.range(3, 40);
    let step = (end / bursts).max(1);
    let mut held = false;
    for _ in 0..bursts {
        at += g.r.range(0, step);
        match g.r.weighted(&[40, 20, 25, if odd { 20 } else { 0 }, 5]) {
            0 => {
                let n = g.r.range(1, (m * 3 / 2 + 1).min(90));
                let q = g.of(&[1, 1, 1, 3, 4]);
                g.op(at, 0, K::Flood, &[0, q, n as u32, 2, 0]);
            }
            1 => {
                held = !held;
                g.op(at, 0, K::Hold, &[held as u32]);
            }
            2 => {
                let o = g.n(0, 2);
                let k = if g.pct(40) { 0 } else { g.n(1, m.min(20)) };
                g.op(at, 0, K::Release, &[o, k]);
            }
            3 => {
                let n = g.r.range(1, 3);
                for _ in 0..n {
                    if g.pct(50) {
                        let kind = g.n(0, 2);
                        let id = g.n(1, m + 1);
                        g.op(at, 0, K::OddAck, &[kind, 1, id]);
                    } else {
                        g.odd_ack(at, 0);
                    }
                }
            }
            _ => g.request(at, 0, false),
        }
    }
    if g.pct(20) {
        let at = g.r.below(end);
        g.incoming(at, 0, false);
    }
    if g.pct(10) {
        g.op(end, 0, K::Disc, &[0]);
    } else if g.pct(40) {
        g.sc.end = capacity_probe(g, end, m);
    }
}

/// Whatever has happened, every identifier has to be usable once all exchanges are finished.
fn capacity_probe(g: &mut G, mut at: u64, m: u64) -> u64 {
    g.op(at, 0, K::Hold, &[0]);
    g.op(at, 0, K::Release, &[2, 0]);
    at += g.of(&[20, 60, 300]) as u64;
    g.op(at, 0, K::Hold, &[1]);
    let mut left = m + g.r.range(0, 3);
    let q = g.of(&[1, 3, 4]);
    while left > 0 {
        let k = left.min(100);
        g.op(at, 0, K::Flood, &[0, q, k as u32, 1, 0]);
        left -= k;
        at += 2;
    }
    at += g.of(&[160, 160, 400]) as u64;
    at
}

/// The whole identifier space, used up or gone through.
fn full_ids(g: &mut G) {
    g.sc.idmax = 0;
    g.sc.cfg[0].ack_form = g.of(&[0, 1]);
    let hold = g.pct(60);
    let kind = g.of(&[1, 1, 1, 3, 4]);
    let total = if hold { 65_535 + g.r.range(0, 90) } else { 66_000 };
    if hold {
        g.op(0, 0, K::Hold, &[1]);
    } else {
        g.sc.cfg[0].ack_delay = g.of(&[0, 1, 3]);
        g.sc.cfg[0].ack_jitter = g.of(&[0, 2, 40]);
    }
    let mut at = 5;
    let mut sent = 0;
    while sent < total {
        let n = 100.min(total - sent);
        let q = if hold { kind } else { g.of(&[1, 1, 1, 3, 4]) };
        g.op(at, 0, K::Flood, &[0, q, n as u32, 1, 0]);
        sent += n;
        at += 2;
    }
    if hold {
        at += 20;
        for _ in 0..g.r.range(1, 6) {
            let k = g.n(1, 40);
            g.op(at, 0, K::Release, &[0, k]);
            at += 3;
            let n = g.n(1, 60);
            let q = g.of(&[1, 3, 4]);
            g.op(at, 0, K::Flood, &[0, q, n, 1, 0]);
            at += g.of(&[3, 3, 3, 160]) as u64;
        }
        if g.pct(60) {
            // thousands of gaps
            let k = g.n(4, 12);
            g.op(at, 0, K::Release, &[3, k]);
            at += 20;
            for _ in 0..65_535 / k / 100 {
                g.op(at, 0, K::Flood, &[0, 1, 100, 1, 0]);
                at += 2;
            }
            g.op(at, 0, K::Flood, &[0, 1, 90, 1, 0]);
            at += 5;
        }
        let o = g.of(&[0, 0, 1, 2]);
        g.op(at, 0, K::Release, &[o, 0]);
        at += 20;
        // every identifier is free again
        let again = if g.pct(50) { 65_535 } else { 90 };
        let q = g.of(&[1, 1, 3, 4]);
        for _ in 0..(again + 99) / 100 {
            g.op(at, 0, K::Flood, &[0, q, 100, 1, 0]);
            at += 2;
        }
        // long enough to see that nothing waits that could go
        at += 160;
    }
    g.sc.end = at + 10;
    g.sc.settle = 3000;
}

fn incoming(g: &mut G, big: bool) {
    g.net_knobs(0, true);
    g.peer_knobs(0);
    g.sc.cfg[0].ack_form = 3;
    g.sc.end = g.span();
    let end = g.sc.end;
    let t = g.times(end);
    let n = *g.r.pick(&[3, 10, 30, 80]);
    let reqs = *g.r.pick(&[0, 10, 40]);
    for _ in 0..n {
        let at = t.pick(&mut g.r);
        if g.pct(reqs) {
            g.request(at, 0, false);
        } else {
            g.incoming(at, 0, big);
        }
    }
    if g.pct(30) {
        let at = t.pick(&mut g.r);
        g.odd_ack(at, 0);
    }
    if g.pct(40) {
        let at = t.pick(&mut g.r);
        g.end_fault(at, 0);
    }
    if g.pct(30) {
        let at = t.pick(&mut g.r);
        g.stall(at, 0);
    }
    if g.pct(20) {
        let at = t.pick(&mut g.r);
        g.op(at, 0, K::Disc, &[0]);
    }
    if g.pct(10) {
        let at = t.pick(&mut g.r);
        g.op(at, 0, K::DropAll, &[]);
    }
}

/// Bursts larger than the notification queue, a reader that pauses, and a crash.
fn overflow(g: &mut G) {
    if g.pct(40) {
        g.net_knobs(0, false);
    }
    g.sc.cfg[0].ack_form = 3;
    g.sc.cfg[0].inline_cons = g.n(0, 1);
    if g.pct(30) {
        g.sc.cfg[0].cons_ms = g.of(&[1, 10, 50]);
    }
    let mut at = 10 + g.r.below(50);
    let rounds = g.r.range(1, 4);
    for _ in 0..rounds {
        let pause = g.pct(80);
        if pause {
            g.op(at, 0, K::Pause, &[]);
        }
        let n = match g.r.below(4) {
            0 => g.r.range(95, 106),
            1 => g.r.range(1, 99),
            2 => g.r.range(106, 300),
            _ => g.r.range(98, 103),
        };
        let q = g.of(&[0, 1, 1, 3, 3, 5, 6, 7, 7]);
        let split = g.pct(50);
        if split {
            let k = g.r.range(0, n);
            g.op(at, 0, K::BBurst, &[q, k as u32, 4]);
            at += g.r.range(0, 20);
            g.op(at, 0, K::BBurst, &[q, (n - k) as u32, 4]);
        } else {
            g.op(at, 0, K::BBurst, &[q, n as u32, 4]);
        }
        if g.pct(15) {
            // enough to fill every buffer between the broker and the application
            let mut n = g.n(300, 1500);
            let l = g.of(&[4, 200, 1000]);
            let q = if g.pct(50) { g.of(&[5, 6, 7]) } else { q };
            if l == 4 && g.pct(15) {
                n = g.n(13_000, 20_000);
            }
            g.op(at, 0, K::BBurst, &[q, n, l]);
        }
        for _ in 0..g.r.below(4) {
            let a = at + g.r.below(20);
            g.request(a, 0, false);
        }
        at += *g.r.pick(&[1, 3, 20, 200, 3000, 7990, 9000, 20_000, if g.sc.seed % 8 == 0 { 700_000 } else { 3 }]);
        if g.pct(30) {
            let w = if g.pct(60) { g.of(&[2, 3, 2, 1]) } else { 0 };
            let b = at.saturating_sub(g.r.below(30));
            g.op(b, 0, K::DropLoop, &[w]);
        } else if g.pct(25) {
            g.op(at, 0, K::DropRx, &[]);
        } else if g.pct(20) {
            g.end_fault(at, 0);
        }
        if pause && g.pct(85) {
            at += g.r.below(3);
            g.op(at, 0, K::Resume, &[]);
        }
        at += g.r.range(0, 60);
        if g.pct(10) {
            g.op(at, 0, K::Disc, &[0]);
        }
    }
    for _ in 0..g.r.below(3) {
        let a = g.r.below(at + 1);
        let k = *g.r.pick(&[K::Spur, K::DropAll, K::Stall, K::ConsDelay, K::TakeStall]);
        let d = g.of(&[1, 30, 500]);
        g.op(a, 0, k, &[d]);
    }
    g.sc.end = at + g.r.range(1, 200);
}

/// Thousands of exchanges, few of them at the same time.
fn long_session(g: &mut G) {
    g.sc.cfg[0].ack_form = g.of(&[0, 0, 1, 3]);
    g.sc.cfg[0].latency = g.of(&[0, 0, 1, 3]);
    if g.pct(30) {
        g.sc.idmax = g.of(&[3, 20, 50, 200]);
    }
    if g.pct(20) {
        g.sc.cfg[0].ack_reason = 1;
    }
    if g.pct(20) {
        g.sc.cfg[0].ack_jitter = g.of(&[1, 5, 20]);
    }
    if g.pct(15) {
        g.sc.cfg[0].cons_ms = 1;
    }
    let rounds = g.r.range(40, 160);
    let spread = *g.r.pick(&[3, 10, 40, 200, 2000]);
    let kinds: Vec<u32> = (0..g.r.range(1, 4)).map(|_| g.of(&[0, 1, 1, 3, 4, 10, 11, 11, 15, 16, 17])).collect();
    let len = g.of(&[0, 10, 100, 1000, 3000]);
    let mut at = 5;
    for i in 0..rounds {
        let k = kinds[i as usize % kinds.len()];
        let n = g.n(5, 90);
        let l = g.n(0, len as u64);
        if k >= 10 {
            g.op(at, 0, K::BBurst, &[k - 10, n, l]);
        } else {
            g.op(at, 0, K::Flood, &[0, k, n, l, 0]);
        }
        if g.pct(3) {
            g.op(at, 0, K::Clone, &[0]);
        }
        if g.pct(3) {
            let (d, e, f) = (g.n(0, 2), g.n(0, 3), g.n(0, 60_000));
            g.op(at, 0, K::OddAck, &[d, e, f]);
        }
        at += 1 + g.r.below(spread);
    }
    if g.pct(20) {
        let k = *g.r.pick(&[K::DropAll, K::DropRx, K::Disc, K::Eof, K::Reset, K::DropLoop]);
        let t = g.r.below(at);
        g.op(t, 0, k, &[0]);
    }
    g.sc.end = at + 50;
}

/// Very many exchanges, each batch of them acknowledged in any order.
fn shuffled_session(g: &mut G) {
    g.sc.cfg[0].ack_form = g.of(&[0, 1, 3]);
    g.sc.cfg[0].inline_cons = 1;
    if g.pct(30) {
        g.sc.idmax = g.of(&[95, 150, 300]);
    }
    g.op(0, 0, K::Hold, &[1]);
    let rounds = g.r.range(500, 2000);
    let q = g.of(&[1, 1, 3, 4]);
    let mut at = 5;
    for _ in 0..rounds {
        let n = g.n(60, 95);
        g.op(at, 0, K::Flood, &[0, q, n, 1, 0]);
        at += 2;
        if g.pct(20) {
            let k = g.n(2, 4);
            g.op(at, 0, K::Release, &[3, k]);
            at += 1;
        }
        let (o, k) = (g.of(&[2, 2, 2, 1, 0]), if g.pct(70) { 0 } else { g.n(1, n as u64) });
        g.op(at, 0, K::Release, &[o, k]);
        at += 2;
    }
    if g.sc.idmax > 0 {
        let m = g.sc.idmax as u64;
        at = capacity_probe(g, at, m);
    }
    g.sc.end = at + 50;
}

/// Thousands of outstanding exchanges acknowledged in such an order that the free identifiers are
/// scattered all over; afterwards every one of them has to be usable.
fn scattered_ids(g: &mut G) {
    let m = g.r.range(1500, 9000);
    g.sc.idmax = m as u32;
    g.sc.cfg[0].ack_form = g.of(&[0, 1, 3]);
    g.op(0, 0, K::Hold, &[1]);
    let mut at = 5;
    let kinds: &[u32] = if g.pct(50) { &[1] } else { &[1, 1, 3, 4] };
    let mut flood = |g: &mut G, n: u64, at: &mut u64| {
        let mut left = n;
        while left > 0 {
            let k = left.min(100);
            let q = g.of(kinds);
            g.op(*at, 0, K::Flood, &[0, q, k as u32, 1, 0]);
            left -= k;
            *at += 2;
        }
        *at += 20;
    };
    flood(g, m, &mut at);
    let k = g.n(2, 5);
    g.op(at, 0, K::Release, &[3, k]);
    at += 20;
    if g.pct(50) {
        let n = g.r.range(1, m / k as u64);
        flood(g, n, &mut at);
    }
    for _ in 0..g.r.below(3) {
        let (o, n) = (g.n(0, 2), g.n(1, m / 2));
        g.op(at, 0, K::Release, &[o, n]);
        at += 20;
        if g.pct(50) {
            let n = g.r.range(1, 100);
            flood(g, n, &mut at);
        }
    }
    let o = g.n(0, 2);
    g.op(at, 0, K::Release, &[o, 0]);
    at += 40;
    flood(g, m, &mut at);
    // long enough to see that nothing waits that could go
    at += g.of(&[0, 160, 160, 160]) as u64;
    let o = g.n(0, 2);
    g.op(at, 0, K::Release, &[o, 0]);
    g.sc.end = at + 40;
    g.sc.settle = 3000;
}

/// Identifiers of more than eight bits, and acknowledgements that resemble those expected.
fn wide_ids(g: &mut G) {
    let m = g.r.range(260, 1200);
    g.sc.idmax = if g.pct(70) { m as u32 } else { 0 };
    g.sc.cfg[0].ack_form = 3;
    g.op(0, 0, K::Hold, &[1]);
    let mut at = 5;
    for _ in 0..g.r.range(1, 4) {
        let mut left = if g.pct(60) { m + g.r.range(0, 50) } else { g.r.range(10, m) };
        while left > 0 {
            let k = left.min(100);
            let q = g.of(&[1, 1, 3, 4]);
            g.op(at, 0, K::Flood, &[0, q, k as u32, 1, 0, 100]);
            left -= k;
            at += 2;
        }
        at += 5;
        for _ in 0..g.r.range(1, 30) {
            if g.pct(80) {
                let (d, x, y, z) = (g.n(0, 2), g.n(0, 5000), g.n(0, 3), g.n(0, 7));
                g.op(at, 0, K::OddAck, &[d, 4, x, y, z]);
            } else {
                g.odd_ack(at, 0);
            }
            if g.pct(30) {
                at += 1;
                let (o, n) = (g.n(0, 2), g.n(1, 20));
                g.op(at, 0, K::Release, &[o, n]);
            }
        }
        at += 5;
        let (o, n) = (g.n(0, 2), if g.pct(50) { 0 } else { g.n(1, m as u64) });
        g.op(at, 0, K::Release, &[o, n]);
        at += 20;
    }
    let mut left = m + 10;
    while left > 0 {
        let k = left.min(100);
        g.op(at, 0, K::Flood, &[0, 1, k as u32, 1, 0, 100]);
        left -= k;
        at += 2;
    }
    g.op(at + 20, 0, K::Release, &[0, 0]);
    if g.sc.idmax > 0 && g.pct(60) {
        at = capacity_probe(g, at + 30, m as u64);
    }
    g.sc.end = at + 60;
    g.sc.settle = 3000;
}

/// More messages than there are packet identifiers.
fn long_incoming(g: &mut G) {
    g.sc.cfg[0].seg = 4;
    g.sc.cfg[0].inline_cons = 1;
    let q = g.of(&[1, 1, 3, 0]);
    let mut at = 5;
    for i in 0..665 {
        let n = if i % 50 == 0 { 99 } else { 100 };
        g.op(at, 0, K::BBurst, &[q, n, 1]);
        if g.pct(3) {
            g.request(at + 1, 0, false);
        }
        at += 2;
    }
    g.sc.end = at + 10;
    g.sc.settle = 3000;
}

fn acks_in(g: &mut G) {
    if g.pct(50) {
        overflow(g);
        return;
    }
    g.net_knobs(0, true);
    g.peer_knobs(0);
    g.sc.cfg[0].inline_cons = g.of(&[0, 1, 1]);
    g.sc.end = g.span().min(20_000);
    let end = g.sc.end;
    let t = g.times(end);
    for _ in 0..g.r.range(2, 50) {
        let at = t.pick(&mut g.r);
        if g.pct(70) {
            let q = g.of(&[1, 1, 1, 0]);
            let id = if g.pct(30) { g.n(1, 5) } else { 0 };
            let p = g.small_payload();
            let fl = g.n(0, 3) | g.n(0, 2) << 4;
            g.op(at, 0, K::BPub, &[q, 0, p, 0, fl, id]);
        } else {
            g.request(at, 0, false);
        }
    }
    if g.pct(50) {
        let at = t.pick(&mut g.r);
        match g.r.below(4) {
            0 => {
                let a = g.of(&[0, 1, 3, 4]);
                g.op(at, 0, K::DropLoop, &[a])
            }
            1 => g.op(at, 0, K::DropRx, &[]),
            2 => g.end_fault(at, 0),
            _ => g.op(at, 0, K::TakeStall, &[500]),
        }
    }
}

pub fn good_packet(r: &mut Rng) -> Vec<u8> {
    let st = |r: &mut Rng, n: u64| -> Vec<u8> { (0..r.below(n)).map(|_| b'a' + r.below(26) as u8).collect() };
    let user = |r: &mut Rng| Prop::Pair(0x26, st(r, 9), st(r, 9));
    match r.below(8) {
        0 => {
            let p: Vec<Prop> = (0..r.below(3)).map(|_| if r.pct(50) { user(r) } else { Prop::Str(0x1F, st(r, 9)) }).collect();
            mqtt::connack(0, 0, &p)
        }
        1..=3 => {
            let mut p = vec![];
            if r.pct(40) {
                p.push(Prop::Byte(1, r.below(2) as u8));
            }
            if r.pct(40) {
                p.push(Prop::U32(2, r.next() as u32));
            }
            if r.pct(40) {
                p.push(Prop::Str(8, st(r, 20)));
            }
            if r.pct(40) {
                p.push(Prop::Bin(9, st(r, 20)));
            }
            for _ in 0..r.below(3) {
                p.push(user(r));
            }
            let q = r.weighted(&[40, 40, 8]) as u8;
            let mut topic = b"r/".to_vec();
            topic.extend(st(r, 12));
            mqtt::publish(&InPub { qos: q, dup: false, retain: r.pct(20), topic, id: if q > 0 { 1 + r.below(9) as u16 } else { 0 }, props: p, payload: st(r, 40) })
        }
        4 => {
            let p: Vec<Prop> = (0..r.below(4)).map(|_| if r.pct(60) { user(r) } else { Prop::Str(0x1F, st(r, 9)) }).collect();
            mqtt::ack(*r.pick(&[4, 9, 11]), 1 + r.below(4) as u16, *r.pick(&[0, 0, 128, 135, 16, 17, 1]), r.below(3) as u8, &p)
        }
        5 => mqtt::pingresp(),
        6 => {
            let p: Vec<Prop> = (0..r.below(3)).map(|_| user(r)).collect();
            mqtt::disconnect(r.pick(mqtt::DISCONNECT_REASONS).0, 1 + r.below(2) as u8, &p)
        }
        _ => mqtt::ack(*r.pick(&[9, 11]), 1 + r.below(4) as u16, 0, 1, &[]),
    }
}

/// A packet with something wrong with it, most of the time.
pub fn bad_packet(r: &mut Rng) -> Vec<u8> {
    let mut p = good_packet(r);
    // split into first byte and body
    let mut i = 1;
    while p[i] & 128 != 0 {
        i += 1;
    }
    let mut body = p.split_off(i + 1);
    let mut first = p[0];
    match r.below(14) {
        0 => {
            // cut the content, keep the frame consistent
            let n = r.below(body.len() as u64 + 1) as usize;
            body.truncate(n);
        }
        1 => {
            for _ in 0..r.range(1, 3) {
                if !body.is_empty() {
                    let k = r.below(body.len() as u64) as usize;
                    body[k] ^= 1 << r.below(8);
                }
            }
        }
        2 => {
            if !body.is_empty() {
                let k = r.below((body.len() as u64).min(12)) as usize;
                body[k] = *r.pick(&[0, 1, 127, 128, 255, 254, 0x26, 0x1F, 4]);
            }
        }
        3 => first = (r.below(16) as u8) << 4 | (first & 15),
        4 => first = r.below(256) as u8,
        5 => {
            // remaining length longer or shorter than the content
            let mut v = vec![first];
            let n = (body.len() as i64 + r.range(0, 10) as i64 - 5).max(0) as usize;
            v.extend(mqtt::vbi(n));
            v.extend(&body);
            return v;
        }
        6 => {
            // overlong remaining length
            let mut v = vec![first];
            for _ in 0..r.range(2, 5) {
                v.push(128 | r.below(128) as u8);
            }
            v.push(*r.pick(&[0, 1, 127, 255]));
            v.extend(&body);
            return v;
        }
        7 => {
            let n = r.range(1, 30);
            return (0..n).map(|_| r.below(256) as u8).collect();
        }
        8 => {
            // empty body
            body.clear();
        }
        9 => {
            // two-byte lengths at the end of the body
            let n = body.len();
            if n >= 2 {
                let k = r.below(n as u64 - 1) as usize;
                body[k] = *r.pick(&[0, 0xFF]);
                body[k + 1] = r.below(256) as u8;
            }
        }
        10 => {
            // property length that is wrong or overlong somewhere
            let k = r.below(body.len() as u64 + 1) as usize;
            let x: Vec<u8> = (0..r.range(1, 5)).map(|_| *r.pick(&[0xFF, 0x80, 0x7F, 0x05, 0x01])).collect();
            let tail = body.split_off(k);
            body.extend(x);
            body.extend(tail);
        }
        11 => {
            let n = r.range(1, 6);
            body.extend((0..n).map(|_| r.below(256) as u8));
        }
        12 => {
            // targeted: zero identifiers, bad reasons, bad text, every property
            return targeted(r);
        }
        _ => {
            if r.pct(50) {
                return vec![(*r.pick(&[0u8, 1, 5, 6, 7, 8, 10, 12, 15])) << 4 | if r.pct(50) { 2 } else { 0 }, 2, 0, 1];
            }
        }
    }
    mqtt::frame(first, &body)
}

fn targeted(r: &mut Rng) -> Vec<u8> {
    let props: Vec<u8> = match r.below(12) {
        0 => vec![],
        1 => vec![0x26, 0, 1, b'a', 0, 1],
        2 => vec![0x26, 0, 1, b'a'],
        3 => vec![0x26],
        4 => vec![0x1F, 0, 9, b'a'],
        5 => vec![0x1F],
        6 => vec![1],
        7 => vec![2, 0, 0, 0],
        8 => vec![9, 0, 5, 1],
        9 => vec![8, 0, 2, 0xC3, 0x28],
        10 => vec![0x26, 0, 1, b'a', 0, 1, b'b', 0x26, 0, 1, b'c', 0, 1, b'd', 0x1F, 0, 1, b'x'],
        _ => vec![*r.pick(&[3, 0x0B, 0x11, 0x23, 0x7F, 0xFF, 0]), 0, 0, 0, 0],
    };
    let off: i64 = *r.pick(&[0, 0, 0, -1, 1, 2, 100]);
    let mut pl = mqtt::vbi((props.len() as i64 + off).max(0) as usize);
    if r.pct(10) {
        pl = vec![0xFF, 0xFF, 0xFF, 0xFF, 1];
    }
    let mut b: Vec<u8> = vec![];
    let kind = *r.pick(&[2u8, 3, 3, 4, 9, 11, 14]);
    let mut flags = 0;
    match kind {
        2 => b.extend([0, 0]),
        3 => {
            flags = *r.pick(&[0u8, 2, 1, 3, 0xA, 4, 6]);
            match r.below(4) {
                0 => b.extend([0, 3, 0xFF, 0xFE, b'x']),
                1 => b.extend([0, 20, b'x']),
                _ => b.extend([0, 1, b'x']),
            }
            if flags & 6 != 0 {
                b.extend([0, r.below(2) as u8]);
            }
        }
        14 => b.push(*r.pick(&[0, 4, 1, 129, 255])),
        _ => {
            b.extend([0, r.below(3) as u8]);
            if kind == 4 {
                b.push(*r.pick(&[0, 16, 1, 255]));
            }
        }
    }
    b.extend(pl);
    b.extend(props);
    if kind == 9 || kind == 11 {
        for _ in 0..r.below(3) {
            b.push(*r.pick(&[0, 1, 17, 255, 3]));
        }
    }
    if kind == 3 {
        b.extend(vec![b'p'; r.below(6) as usize]);
    }
    if r.pct(25) {
        let n = r.below(b.len() as u64 + 1) as usize;
        b.truncate(n);
    }
    mqtt::frame(kind << 4 | flags, &b)
}

fn malformed(g: &mut G) {
    g.net_knobs(0, true);
    if g.pct(40) {
        g.peer_knobs(0);
    }
    if g.pct(20) {
        g.sc.cfg[0].connack = 4;
    }
    g.sc.end = g.r.range(20, 3000);
    let end = g.sc.end;
    let at = g.sc.cfg[0].conn_delay as u64 + g.sc.cfg[0].connack_delay as u64 + g.r.range(2, end.max(3));
    g.sc.end = g.sc.end.max(at + 10);
    if g.pct(60) {
        // complete messages right before
        for _ in 0..g.r.below(4) {
            let b = at - g.r.below(2);
            g.incoming(b, 0, false);
        }
        if g.pct(20) {
            let q = g.of(&[0, 1]);
            let n = g.n(80, 130);
            g.op(at, 0, K::BBurst, &[q, n, 3]);
        }
    }
    if g.pct(50) {
        let a = g.r.below(at + 1);
        g.request(a, 0, false);
    }
    let n = *g.r.pick(&[1, 1, 1, 2, 4]);
    for _ in 0..n {
        let b = if g.pct(85) { bad_packet(&mut g.r) } else { good_packet(&mut g.r) };
        let d = g.r.below(3);
        g.raw(at + d, 0, b);
    }
    if g.pct(40) {
        for _ in 0..g.r.range(1, 3) {
            g.incoming(at + 2, 0, false);
        }
    }
    if g.pct(30) {
        g.end_fault(at + 3, 0);
    }
}

/// A session so long that counters of keep-alive intervals overflow.
fn long_keepalive(g: &mut G) {
    let intervals = match g.r.weighted(&[25, 50, 25]) {
        0 => g.r.range(65_530, 65_600),
        1 => (1u64 << *g.r.pick(&[6, 7, 7, 8, 8, 8, 8, 9, 10, 11])) + g.r.range(0, 4) - 1,
        _ => g.r.range(250, 1100),
    };
    g.sc.cfg[0].ping_delay = g.of(&[0, 1, 100, 4000]);
    let end = intervals * KA;
    for _ in 0..g.r.below(4) {
        let at = g.r.below(end);
        if g.pct(50) {
            g.request(at, 0, false)
        } else {
            g.incoming(at, 0, false)
        }
    }
    if g.pct(80) {
        let at = end - g.r.below(4 * KA);
        let n = if g.pct(50) { 1 } else { 1_000_000 };
        g.op(at, 0, K::PingDrop, &[n]);
    }
    g.sc.end = end;
    g.sc.settle = 18_000;
}

/// The response is there and the event loop, held up until the next ping is due, has so much else
/// to do that tokio interrupts it at any point.
fn busy_when_due(g: &mut G) {
    let lat = g.of(&[0, 1, 5]);
    g.sc.cfg[0].latency = lat;
    g.sc.cfg[0].wshort = 1;
    g.sc.cfg[0].ping_delay = g.n(0, 7900);
    g.sc.cfg[0].wcap = g.of(&[1 << 20, 65536, 4096]);
    if g.pct(30) {
        g.sc.cfg[0].seg = g.n(1, 2);
    }
    let n = g.r.range(2, 8);
    for k in 1..=n {
        let from = k * KA + g.r.range(100, 7990);
        let to = (k + 1) * KA + g.r.range(0, 60);
        g.op(from, 0, K::Stall, &[(to - from) as u32]);
        for _ in 0..g.r.range(1, 40) {
            let at = from + g.r.below(to - from);
            if g.pct(75) {
                let (q, len) = (g.n(0, 1), g.n(1, 1200));
                g.op(at, 0, K::Pub, &[0, q, 0, len]);
            } else {
                let (q, len) = (g.n(0, 1), g.n(1, 200));
                g.op(at, 0, K::BPub, &[q, 0, len]);
            }
        }
    }
    g.sc.end = (n + 2) * KA;
    g.sc.settle = 18_000;
}

/// Silence, apart from pings, after bringing the session into some state that lasts.
fn quiet_state(g: &mut G) {
    g.sc.cfg[0].ping_delay = match g.r.below(4) {
        0 => 0,
        1 => g.n(1, 100),
        2 => g.n(100, 7900),
        _ => g.n(7900, 7999),
    };
    let intervals = g.r.range(2, 8);
    let mut at = 4;
    for _ in 0..g.r.range(1, 3) {
        match g.r.below(9) {
            0 | 1 | 2 => {
                // many exchanges stay open
                g.op(3, 0, K::Hold, &[1]);
                let (q, n, style) = (g.of(&[1, 1, 2, 3, 4]), g.n(1, 100), g.of(&[0, 0, 100]));
                if g.pct(40) {
                    g.sc.idmax = g.of(&[1, 3, 10, 50]);
                }
                g.op(at, 0, K::Flood, &[0, q, n, 3, 0, style]);
            }
            3 => {
                // a packet arrives in part
                let mut b = good_packet(&mut g.r);
                let cut = g.r.range(1, b.len() as u64 - 1) as usize;
                let rest = b.split_off(cut);
                g.raw(at, 0, b);
                let late = at + g.r.range(1, intervals * KA);
                g.raw(late, 0, rest);
                // nothing else may come in between
                g.sc.cfg[0].ping_delay = 0;
                g.op(at, 0, K::PingDrop, &[1_000_000]);
            }
            4 => g.op(at, 0, K::DropAll, &[]),
            5 => g.op(at, 0, K::DropRx, &[]),
            6 => {
                // received, and the acknowledgement sent, while nobody listened
                let n = g.n(1, 60);
                let q = g.n(0, 1);
                g.op(at, 0, K::BBurst, &[q, n, 3]);
            }
            7 => {
                let l = g.n(1000, 60_000);
                g.op(at, 0, K::Pub, &[0, 1, 0, l, 0, 0]);
            }
            _ => {
                let l = g.n(1000, 60_000);
                g.op(at, 0, K::BPub, &[1, 0, l, 0, 0, 0]);
            }
        }
        at += g.r.range(1, 30);
    }
    if g.pct(50) {
        let k = g.r.below(intervals * KA);
        g.op(k, 0, K::PingDrop, &[1_000_000]);
    }
    g.sc.end = intervals * KA;
    g.sc.settle = 18_000;
}

fn keepalive(g: &mut G) {
    let s = 0;
    if g.pct(12) {
        return busy_when_due(g);
    }
    if g.pct(12) {
        return quiet_state(g);
    }
    if g.pct(30) {
        g.net_knobs(s, false);
        g.sc.cfg[s].take_ms = g.sc.cfg[s].take_ms.min(2);
    }
    let lat = g.of(&[0, 1, 5, 100]);
    g.sc.cfg[s].latency = lat;
    if g.pct(50) {
        g.sc.cfg[s].poll_delay = g.of(&[0, 1, 3, 20, 50]);
    }
    g.sc.cfg[s].ping_delay = match g.r.below(6) {
        0 => 0,
        1 => g.n(1, 100),
        2 => g.n(100, 7000),
        _ => (8000 - lat) + g.n(0, 12) - 10,
    };
    let intervals = match g.r.weighted(&[50, 35, 10, 3]) {
        0 => g.r.range(1, 4),
        1 => g.r.range(3, 12),
        2 => g.r.range(12, 60),
        _ => g.r.range(257, 300),
    };
    if intervals > 60 {
        g.sc.cfg[s].ping_delay = g.n(0, 3000);
    }
    let end = intervals * KA + g.r.range(0, KA);
    g.sc.end = end;
    g.sc.settle = 18_000;
    let near = |g: &mut G, end: u64| -> u64 {
        let k = g.r.range(0, end / KA);
        let base = k * KA;
        match g.r.below(5) {
            0 => base + g.r.range(0, 12),
            1 => (base + 2).saturating_sub(g.r.range(0, 12)),
            2 => base + g.r.range(0, KA - 1),
            3 => base + 4000,
            _ => base + 2,
        }
    };
    // steady traffic in one direction or both
    match g.r.below(6) {
        0 | 1 => {
            let p = *g.r.pick(&[300, 1000, 3000, 7000, 7900]);
            let mut t = g.r.below(p) + 3;
            let q = g.n(0, 1);
            while t < end && g.sc.ops.len() < 400 {
                g.op(t, s, K::Pub, &[0, q, 0, 3, 0, 0]);
                t += p;
            }
        }
        2 | 3 => {
            let p = *g.r.pick(&[300, 1000, 3000, 7000, 7900]);
            let mut t = g.r.below(p) + 3;
            let q = g.n(0, 1);
            while t < end && g.sc.ops.len() < 400 {
                g.op(t, s, K::BPub, &[q, 0, 3, 0, 0, 0]);
                t += p;
            }
        }
        _ => {}
    }
    if g.pct(30) {
        // anything else going on meanwhile
        g.sc.cfg[s].ack_delay = g.of(&[0, 0, 5, 500, 3000]);
        g.sc.cfg[s].ack_jitter = g.of(&[0, 5, 2000]);
        if g.pct(40) {
            g.sc.idmax = g.of(&[1, 2, 3, 10, 40]);
        }
        if g.pct(30) {
            // many exchanges stay open
            g.op(3, s, K::Hold, &[1]);
            let n = g.n(5, 60);
            g.op(5, s, K::Flood, &[0, 1, n, 3, 0, 100]);
            if g.pct(50) {
                let at = near(g, end);
                g.op(at, s, K::Hold, &[0]);
            }
        }
        let t = g.times(end);
        let n = *g.r.pick(&[3, 10, 30, 80]);
        let faults = g.pct(30);
        g.mix(s, n, &t, false, faults);
    }
    for _ in 0..g.r.below(6) {
        let at = near(g, end);
        match g.r.below(12) {
            0 => {
                let n = if g.pct(50) { 1 } else { 1_000_000 };
                g.op(at, s, K::PingDrop, &[n])
            }
            1 => {
                let d = if g.pct(50) { 0 } else { (8000 - lat) + g.n(0, 12) - 10 };
                g.op(at, s, K::PingDelay, &[d])
            }
            2 => g.op(at, s, K::PingResp, &[]),
            3..=6 => {
                let k = *g.r.pick(&[K::Stall, K::Stall, K::TakeStall, K::NetDelay, K::Jump]);
                let d = match g.r.below(6) {
                    // some 25 or 50 days
                    0 if k == K::Jump && g.pct(30) => g.of(&[2_147_483_000, 2_147_490_000, 4_294_967_000]),
                    0 => g.n(1, 60),
                    1 => g.n(60, 3000),
                    2 => g.n(7_980, 8_020),
                    3 => g.n(15_980, 16_020),
                    4 => g.n(8_000, 60_000),
                    _ => g.n(3_000, 7_990),
                };
                g.op(at, s, k, &[d]);
            }
            7 => {
                g.op(at, s, K::Pause, &[]);
                let q = g.of(&[0, 1]);
                let n = g.n(90, 130);
                g.op(at + 1, s, K::BBurst, &[q, n, 3]);
                let d = *g.r.pick(&[10, 4000, 8000, 17_000, 30_000]);
                g.op(at + d, s, K::Resume, &[]);
            }
            8 => {
                let q = g.of(&[0, 1]);
                let n = g.n(10, 90);
                g.op(at, s, K::Flood, &[0, q, n, 3, 0]);
            }
            9 => g.op(at, s, K::DropAll, &[]),
            10 => g.op(at, s, K::DropRx, &[]),
            _ => g.op(at, s, K::Spur, &[]),
        }
    }
    if g.pct(15) {
        // big request through a slow transport around a deadline
        g.sc.cfg[s].wcap = g.of(&[64, 1000]);
        g.sc.cfg[s].take_ms = g.of(&[1, 5]);
        let at = near(g, end);
        let l = g.n(100, 60_000);
        g.op(at.saturating_sub(g.r.clone().below(3000)), s, K::Pub, &[0, 0, 0, l, 0, 0]);
    }
}

fn ending(g: &mut G) {
    g.net_knobs(0, true);
    g.peer_knobs(0);
    g.sc.end = g.span();
    let end = g.sc.end;
    let t = g.times(end);
    let n = *g.r.pick(&[0, 2, 6, 20]);
    g.mix(0, n, &t, false, true);
    let at = t.pick(&mut g.r);
    for _ in 0..*g.r.pick(&[1, 1, 1, 2]) {
        let d = g.r.below(3);
        match g.r.below(10) {
            0..=6 => g.end_fault(at + d, 0),
            7 => {
                let b = good_packet(&mut g.r);
                let n = g.r.range(1, b.len() as u64) as usize;
                g.raw(at, 0, b[..n].to_vec());
                g.op(at + d, 0, K::Eof, &[0]);
            }
            8 => g.op(at + d, 0, K::Disc, &[0]),
            _ => {
                let b = bad_packet(&mut g.r);
                g.raw(at + d, 0, b)
            }
        }
    }
    // activity around the end
    for _ in 0..g.r.below(6) {
        let a = at + g.r.below(4);
        if g.pct(50) {
            g.request(a, 0, false)
        } else {
            g.incoming(a, 0, false)
        }
    }
    if g.pct(20) {
        let a = at.saturating_sub(g.r.below(100));
        g.op(a, 0, K::DropRx, &[]);
    }
    if g.pct(15) {
        let a = at.saturating_sub(g.r.below(100));
        g.op(a, 0, K::DropAll, &[]);
    }
    if g.pct(20) {
        let a = at.saturating_sub(g.r.below(20));
        let d = g.n(1, 500);
        let k = *g.r.pick(&[K::Stall, K::TakeStall, K::NetDelay]);
        g.op(a, 0, k, &[d]);
    }
    g.sc.end = g.sc.end.max(at + 5);
}

fn disconnecting(g: &mut G) {
    g.net_knobs(0, true);
    g.peer_knobs(0);
    if g.pct(25) {
        g.sc.idmax = g.of(&[1, 2, 5, 20]);
    }
    g.sc.end = g.span().min(12_000);
    let end = g.sc.end;
    let t = g.times(end);
    let n = *g.r.pick(&[0, 3, 10, 40]);
    g.mix(0, n, &t, false, true);
    let at = t.pick(&mut g.r);
    if g.pct(60) {
        for _ in 0..g.r.below(10) {
            g.request(at, 0, false);
        }
    }
    if g.pct(25) {
        let q = g.of(&[0, 1, 3, 4]);
        let n = g.n(80, 105);
        let p = g.of(&[3, 400]);
        g.op(at, 0, K::Flood, &[0, q, n, p, 1]);
    }
    let h = g.n(0, 3);
    g.op(at, 0, K::Disc, &[h]);
    if g.pct(20) {
        g.op(at, 0, K::Disc, &[0]);
    }
    let d = g.r.below(3);
    for _ in 0..g.r.below(6) {
        if g.pct(60) {
            g.request(at + d, 0, false);
        } else {
            g.incoming(at + d, 0, false);
        }
    }
    if g.pct(20) {
        g.op(at + d, 0, K::DropAll, &[]);
    }
    if g.pct(15) {
        g.op(at, 0, K::DropRx, &[]);
    }
    if g.pct(20) {
        let k = *g.r.pick(&[K::Stall, K::TakeStall]);
        let b = at - g.r.below(at + 1).min(50);
        let ms = g.n(1, 9000);
        g.op(b, 0, k, &[ms]);
    }
    if g.pct(10) {
        g.end_fault(at + d, 0);
    }
    g.sc.end = g.sc.end.max(at + 5);
}

fn fairness(g: &mut G) {
    g.sc.bias = 0;
    if g.pct(50) {
        g.sc.cfg[0].fresh_waker = 1;
    }
    if g.pct(30) {
        g.sc.cfg[0].poll_delay = g.of(&[1, 10, 40]);
    }
    match g.r.below(5) {
        0 => {
            // a never-ending supply of requests, while messages and a ping wait
            let stall = g.r.range(0, 2);
            let at = if stall > 0 { 7_000 } else { 20 };
            if stall > 0 {
                let d = g.n(1_100, 3_000);
                g.op(at, 0, K::Stall, &[d]);
            }
            let q = 0;
            let n = g.n(1_000, 1_800);
            g.op(at + 1, 0, K::InFlood, &[0, q, n]);
            g.op(at + 1, 0, K::Pub, &[0, 0, 0, 3, 0, 0]);
            let k = g.n(1, 40);
            let qi = g.of(&[0, 1, 1]);
            g.op(at + 2, 0, K::BBurst, &[qi, k, 3]);
            g.sc.end = at + 5_000;
        }
        1 => {
            // a flood of messages, while requests and a ping wait
            g.sc.cfg[0].inline_cons = 1;
            let stall = g.pct(70);
            let at = if stall { 7_000 } else { 20 };
            if stall {
                let d = g.n(1_100, 3_000);
                g.op(at, 0, K::Stall, &[d]);
            }
            let n = g.n(700, 1_000);
            g.op(at + 1, 0, K::BBurst, &[1, n, 3]);
            for _ in 0..g.r.range(1, 5) {
                g.request(at + 2, 0, false);
            }
            g.sc.end = at + 5_000;
        }
        2 | 3 => {
            // dropped handles and idle stretches, with spurious polls
            g.net_knobs(0, false);
            g.sc.end = g.r.range(1_000, 60_000);
            let end = g.sc.end;
            let t = g.times(end);
            for _ in 0..g.r.range(0, 6) {
                let at = t.pick(&mut g.r);
                g.request(at, 0, false);
            }
            let k = *g.r.pick(&[K::DropAll, K::DropRx]);
            let at = t.pick(&mut g.r);
            g.op(at, 0, k, &[]);
            if g.pct(30) {
                let at = t.pick(&mut g.r);
                g.op(at, 0, K::DropAll, &[]);
            }
            for _ in 0..g.r.range(1, 10) {
                let at = t.pick(&mut g.r);
                g.incoming(at, 0, false);
            }
            for _ in 0..g.r.range(0, 5) {
                let at = t.pick(&mut g.r);
                g.op(at, 0, K::Spur, &[]);
            }
            for _ in 0..g.r.below(3) {
                let at = t.pick(&mut g.r);
                g.stall(at, 0);
            }
        }
        _ => general(g, 0),
    }
}

fn admission(g: &mut G) {
    if g.pct(50) {
        g.net_knobs(0, false);
    }
    g.sc.cfg[0].conn_delay = g.of(&[0, 0, 5, 500]);
    g.sc.end = g.r.range(20, 12_000);
    if g.pct(25) {
        g.sc.idmax = g.of(&[1, 5, 30]);
    }
    let end = g.sc.end;
    let t = g.times(end);
    for _ in 0..g.r.below(8) {
        let at = if g.pct(60) { 0 } else { t.pick(&mut g.r) };
        g.op(at, 0, K::Clone, &[0]);
    }
    for _ in 0..g.r.range(1, 6) {
        let at = t.pick(&mut g.r);
        let q = g.of(&[0, 1, 3, 4]);
        let n = g.of(&[1, 50, 99, 100, 101, 102, 110, 150, 300]);
        let sp = g.n(0, 1);
        let k = g.n(0, 8);
        let len = g.of(&[0, 1, 3, 3, 3, 60]);
        let style = g.of(&[0, 0, 1, 2, 100]);
        g.op(at, 0, K::Flood, &[k, q, n, len, sp, style]);
        if g.pct(30) {
            g.request(at, 0, true);
        }
    }
    for _ in 0..g.r.below(3) {
        let at = t.pick(&mut g.r);
        let k = *g.r.pick(&[K::Stall, K::TakeStall]);
        let d = g.n(1, 3000);
        g.op(at, 0, k, &[d]);
    }
    for _ in 0..g.r.below(3) {
        let at = t.pick(&mut g.r);
        let h = g.n(0, 8);
        g.op(at, 0, K::Drop, &[h]);
    }
    if g.pct(30) {
        let at = t.pick(&mut g.r);
        g.incoming(at, 0, false);
    }
    if g.pct(70) {
        let at = t.pick(&mut g.r);
        match g.r.below(6) {
            0 | 1 => {
                let a = g.n(0, 5);
                g.op(at, 0, K::DropLoop, &[a])
            }
            2 => g.op(at, 0, K::Disc, &[0]),
            3 => {
                let b = bad_packet(&mut g.r);
                g.raw(at, 0, b)
            }
            _ => g.end_fault(at, 0),
        }
    }
}

fn multi(g: &mut G) {
    let many = g.pct(6);
    let n = if many { g.r.range(4, 12) } else { g.r.range(2, 3) } as usize;
    g.sc.cfg = vec![Cfg::default(); n];
    g.sc.end = g.span().min(if many { 3000 } else { 30_000 });
    if g.pct(30) {
        g.sc.idmax = g.of(&[2, 5, 20]);
    }
    let end = g.sc.end;
    for s in 0..n {
        if g.pct(70) {
            general(g, s);
            g.sc.end = end;
        } else {
            // steady, so that anything wrong with it comes from the neighbour
            let p = g.r.range(20, 3000);
            let mut t = 5;
            while t < end {
                let q = g.n(0, 1);
                if g.pct(50) {
                    g.op(t, s, K::Pub, &[0, q, 0, 6, 0, 0]);
                } else {
                    g.op(t, s, K::BPub, &[q, 0, 6, 0, 0, 0]);
                }
                if g.pct(20) {
                    g.op(t, s, K::Sub, &[0, 1, 0]);
                }
                t += p;
            }
        }
    }
}

/// Several sessions, each with a profile made for one session alone.
fn crowd(g: &mut G) {
    let n = if g.pct(75) { 2 } else { 3 };
    let alike = g.pct(30);
    let mut kind = g.r.below(12);
    let mut all: Vec<Scenario> = vec![];
    for _ in 0..n {
        if !alike {
            kind = g.r.below(12);
        }
        let mut one = base("C17", g.r.next());
        match kind {
            0 | 1 => keepalive(&mut one),
            2 => ending(&mut one),
            3 => disconnecting(&mut one),
            4 => startup(&mut one),
            5 => requests(&mut one, false),
            6 => ids(&mut one),
            7 => incoming(&mut one, false),
            8 => overflow(&mut one),
            9 => malformed(&mut one),
            10 => fairness(&mut one),
            _ => admission(&mut one),
        }
        all.push(one.sc);
    }
    g.sc.cfg.clear();
    // the size of the identifier space is common to all
    g.sc.idmax = all.iter().map(|x| x.idmax).max().unwrap_or(0);
    g.sc.settle = all.iter().map(|x| x.settle).max().unwrap_or(9000);
    g.sc.end = all.iter().map(|x| x.end).max().unwrap_or(1000);
    if g.pct(8) {
        // the ping of one leaves slowly and stays unanswered, while another's is answered
        let one = &mut all[0];
        one.ops.clear();
        one.cfg[0] = Cfg::default();
        one.cfg[0].wcap = g.r.range(1, 2) as u32;
        let k = g.r.range(1, 3);
        let from = k * KA - g.r.range(0, 20);
        let d = *g.r.pick(&[20, 100, 1000, 5000]);
        one.ops.push(Op::new(from, 0, K::PingDrop, &[1_000_000]));
        one.ops.push(Op::new(from, 0, K::TakeStall, &[d]));
        one.end = (k + 2) * KA;
        g.sc.end = g.sc.end.max(one.end);
        let other = &mut all[1];
        other.ops.clear();
        other.cfg[0] = Cfg::default();
        other.cfg[0].ping_delay = g.r.range(0, 50) as u32;
    }
    for (k, one) in all.into_iter().enumerate() {
        g.sc.cfg.extend(one.cfg.into_iter().take(1));
        for mut o in one.ops {
            o.s = k;
            g.sc.ops.push(o);
        }
    }
}

pub fn generate(prop: &str, seed: u64) -> Scenario {
    let mut g = base(prop, seed);
    let roll = g.r.below(1000);
    let gen_share = 180;
    if roll < gen_share && prop != "C17" && prop != "C18" {
        general(&mut g, 0);
    } else {
        match prop {
            "C01" => startup(&mut g),
            "C02" if roll >= 980 => long_session(&mut g),
            "C03" if roll >= 975 && roll < 995 => long_session(&mut g),
            "C02" => match g.r.below(10) {
                0..=6 => {
                    let b = g.pct(10);
                    requests(&mut g, b)
                }
                7 => disconnecting(&mut g),
                _ => ids(&mut g),
            },
            "C03" => {
                let b = g.pct(80);
                requests(&mut g, b);
                if roll >= 998 {
                    let at = g.r.below(g.sc.end);
                    let (q, form, n) = (g.n(0, 1), 0, g.n(1, 2) + 268_435_455);
                    g.op(at, 0, K::Pub, &[0, q, 0, EXACT as u32 + n, form, 0]);
                }
            }
            "C04" | "C05" => {
                if roll >= 997 {
                    full_ids(&mut g)
                } else if roll >= 996 {
                    shuffled_session(&mut g)
                } else if roll >= 992 {
                    scattered_ids(&mut g)
                } else if roll >= 980 {
                    wide_ids(&mut g)
                } else {
                    ids(&mut g)
                }
            }
            "C06" if roll >= 996 => long_incoming(&mut g),
            "C06" | "C07" if roll >= 988 && roll < 996 => long_session(&mut g),
            "C07" if roll >= 996 => long_incoming(&mut g),
            "C09" | "C10" | "C11" if roll >= 994 => long_keepalive(&mut g),
            "C06" => match g.r.below(10) {
                0..=6 => {
                    let b = g.pct(35);
                    incoming(&mut g, b)
                }
                7 => overflow(&mut g),
                8 => ending(&mut g),
                _ => malformed(&mut g),
            },
            "C07" => acks_in(&mut g),
            "C08" => malformed(&mut g),
            "C09" | "C10" | "C11" => keepalive(&mut g),
            "C12" => ending(&mut g),
            "C13" => disconnecting(&mut g),
            "C14" => match g.r.below(10) {
                0..=5 => fairness(&mut g),
                6 => keepalive(&mut g),
                7 => overflow(&mut g),
                _ => requests(&mut g, false),
            },
            "C15" => admission(&mut g),
            "C16" => overflow(&mut g),
            "C17" if roll >= 998 => {
                // every identifier of one session is in use when another needs some
                full_ids(&mut g);
                let mut c = Cfg::default();
                c.ack_delay = g.of(&[0, 1, 5]);
                g.sc.cfg.push(c);
                let end = g.sc.end;
                for _ in 0..g.r.range(1, 6) {
                    let at = end / 3 + g.r.below(end - end / 3);
                    g.request(at, 1, false);
                }
            }
            "C17" if g.pct(35) => crowd(&mut g),
            "C17" => multi(&mut g),
            "C18" if roll >= 985 => shuffled_session(&mut g),
            "C18" => match g.r.below(10) {
                0..=3 => long_session(&mut g),
                4 => {
                    let b = g.pct(60);
                    requests(&mut g, b)
                }
                5 => ids(&mut g),
                6 => overflow(&mut g),
                7 => {
                    let b = g.pct(60);
                    incoming(&mut g, b)
                }
                8 => match g.r.below(4) {
                    0 => multi(&mut g),
                    1 => keepalive(&mut g),
                    2 => fairness(&mut g),
                    _ => admission(&mut g),
                },
                _ => match g.r.below(4) {
                    0 => startup(&mut g),
                    1 => disconnecting(&mut g),
                    2 => malformed(&mut g),
                    _ => ending(&mut g),
                },
            },
            _ => general(&mut g, 0),
        }
    }
    for s in 0..g.sc.cfg.len() {
        if g.pct(25) {
            g.sc.cfg[s].keep_loop = 1;
        }
        if g.pct(25) {
            g.sc.cfg[s].mid = g.of(&[3, 15, 40, 80]);
        }
    }
    for s in 0..g.sc.cfg.len() {
        if g.pct(15) {
            g.sc.cfg[s].logged = 1;
        }
    }
    if g.sc.cfg.len() > 1 && g.pct(50) {
        for c in g.sc.cfg.iter_mut() {
            c.same_addr = 1;
        }
    }
    if g.sc.cfg.len() == 1 {
        let (p, end) = (prop, g.sc.end);
        if matches!(p, "C02" | "C04" | "C05" | "C06" | "C07" | "C13" | "C15" | "C16") && end < 20_000 && g.pct(3) {
            straddle(&mut g);
        } else if matches!(p, "C02" | "C03" | "C05" | "C06" | "C07" | "C13" | "C14" | "C15" | "C16") && end < 100_000 && g.pct(2) {
            long_blockage(&mut g);
        }
    }
    g.sc.sort();
    g.sc
}

/// Moves everything to the time when a ping is due whose predecessor is answered in the last
/// moment, while the event loop does not run.
fn straddle(g: &mut G) {
    let x = g.r.below(g.sc.end + 1);
    let shift = 2 * KA - x.min(2 * KA - 100);
    for o in g.sc.ops.iter_mut() {
        if o.at > 0 {
            o.at += shift;
        }
    }
    g.sc.end += shift;
    let c = &mut g.sc.cfg[0];
    c.conn_delay = 0;
    c.connack_delay = c.connack_delay.min(2);
    let early = g.n(0, 100);
    g.sc.cfg[0].ping_delay = KA as u32 - early;
    let at = 2 * KA - g.r.range(0, early as u64 + 20);
    let to = 2 * KA + g.r.range(0, 80);
    g.op(at, 0, K::Stall, &[(to - at) as u32]);
    g.sc.end = g.sc.end.max(to + 50);
}

/// The broker takes nothing, or the application no notification, for minutes or an hour.
fn long_blockage(g: &mut G) {
    let at = g.r.below(g.sc.end + 1);
    let ms = g.of(&[31_000, 31_000, 61_000, 61_000, 121_000, 301_000, 601_000, 3_601_000]);
    if g.pct(70) {
        g.sc.cfg[0].wcap = g.of(&[1, 3, 30, 1000]);
        g.op(at, 0, K::TakeStall, &[ms]);
    } else {
        g.op(at, 0, K::Pause, &[]);
        let (q, n) = (g.of(&[0, 1, 3, 7]), g.n(95, 250));
        g.op(at + 1, 0, K::BBurst, &[q, n, 4]);
        g.op(at + ms as u64, 0, K::Resume, &[]);
    }
    for _ in 0..g.r.range(1, 5) {
        let b = at + g.r.below(100);
        g.request(b, 0, false);
    }
    g.sc.end = g.sc.end.max(at + ms as u64 + 100);
}

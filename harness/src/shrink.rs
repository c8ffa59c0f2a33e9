//! Minimises a failing scenario: fewer operations, default knobs, smaller arguments, earlier
//! times; every candidate is run for real and kept only if it fails in the same way.

use crate::exec::eval;
use crate::scenario::{Cfg, Scenario, K};
use crate::seal::real_now;

pub struct Shrinker<'a> {
    pub class: String,
    pub until: f64,
    pub tried: u64,
    pub fails: &'a dyn Fn(&Scenario) -> bool,
}

pub fn fails_with(sc: &Scenario, class: &str) -> bool {
    eval(sc, false).viol.iter().any(|v| v.0 == class)
}

impl<'a> Shrinker<'a> {
    fn ok(&mut self, sc: &Scenario) -> bool {
        if real_now() > self.until {
            return false;
        }
        self.tried += 1;
        (self.fails)(sc)
    }

    pub fn run(&mut self, mut sc: Scenario) -> Scenario {
        loop {
            let before = sc.to_text();
            self.sessions(&mut sc);
            self.ops(&mut sc);
            self.knobs(&mut sc);
            self.args(&mut sc);
            self.times(&mut sc);
            if sc.to_text() == before || real_now() > self.until {
                return sc;
            }
        }
    }

    fn try_set(&mut self, sc: &mut Scenario, f: impl FnOnce(&mut Scenario)) -> bool {
        let mut c = sc.clone();
        f(&mut c);
        if c == *sc || !self.ok(&c) {
            return false;
        }
        *sc = c;
        true
    }

    fn sessions(&mut self, sc: &mut Scenario) {
        let mut i = 0;
        while sc.cfg.len() > 1 && i < sc.cfg.len() {
            let hit = self.try_set(sc, |c| {
                c.cfg.remove(i);
                c.ops.retain(|o| o.s != i);
                for o in &mut c.ops {
                    if o.s > i {
                        o.s -= 1
                    }
                }
            });
            if !hit {
                i += 1
            }
        }
    }

    fn ops(&mut self, sc: &mut Scenario) {
        let mut n = sc.ops.len().max(1);
        while n >= 1 {
            let mut i = 0;
            while i < sc.ops.len() {
                let j = (i + n).min(sc.ops.len());
                let hit = self.try_set(sc, |c| {
                    c.ops.drain(i..j);
                });
                if !hit {
                    i = j;
                }
                if real_now() > self.until {
                    return;
                }
            }
            if n == 1 {
                break;
            }
            n = n.div_ceil(2);
        }
    }

    fn knobs(&mut self, sc: &mut Scenario) {
        let d = Cfg::default();
        for i in 0..sc.cfg.len() {
            for n in Cfg::NAMES {
                let v = d.get(n);
                if sc.cfg[i].get(n) != v {
                    self.try_set(sc, |c| {
                        c.cfg[i].set(n, v);
                    });
                }
            }
        }
        self.try_set(sc, |c| c.bias = 0);
        self.try_set(sc, |c| c.idmax = 0);
        self.try_set(sc, |c| c.settle = 9000.min(c.settle));
    }

    fn args(&mut self, sc: &mut Scenario) {
        for i in 0..sc.ops.len() {
            for k in 0..6 {
                if sc.ops[i].a[k] == 0 {
                    continue;
                }
                if matches!(sc.ops[i].k, K::BDisc) && k == 1 {
                    continue;
                }
                if self.try_set(sc, |c| c.ops[i].a[k] = 0) {
                    continue;
                }
                // binary search on what is still large
                let mut lo = 0;
                while sc.ops[i].a[k] - lo > 1 {
                    let m = lo + (sc.ops[i].a[k] - lo) / 2;
                    if !self.try_set(sc, |c| c.ops[i].a[k] = m) {
                        lo = m;
                    }
                    if real_now() > self.until {
                        return;
                    }
                }
            }
            let mut n = sc.ops[i].data.len() / 2;
            while n > 0 {
                let l = sc.ops[i].data.len();
                if l >= n && self.try_set(sc, |c| c.ops[i].data.truncate(l - n)) {
                    continue;
                }
                n /= 2;
            }
        }
    }

    fn times(&mut self, sc: &mut Scenario) {
        for i in 0..sc.ops.len() {
            let at = sc.ops[i].at;
            let prev = if i == 0 { 0 } else { sc.ops[i - 1].at };
            for t in [prev, prev + 1, at / 1000 * 1000, at / 100 * 100, at / 10 * 10] {
                if t < at && t >= prev && self.try_set(sc, |c| c.ops[i].at = t) {
                    break;
                }
            }
        }
        let last = sc.ops.iter().map(|o| o.at).max().unwrap_or(0);
        for e in [last + 1, last + 20, last + 1000] {
            if e < sc.end && self.try_set(sc, |c| c.end = e) {
                break;
            }
        }
    }
}

//! A case: everything that one simulated run depends on, as flat data that can be written to a replay
//! file and minimised without knowing what it means.
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub k: String,
    pub a: Vec<i64>,
    pub d: Vec<u8>,
}
impl Ev {
    pub fn new(k: &str, a: &[i64]) -> Ev {
        Ev { k: k.to_string(), a: a.to_vec(), d: vec![] }
    }
    pub fn with(k: &str, a: &[i64], d: Vec<u8>) -> Ev {
        Ev { k: k.to_string(), a: a.to_vec(), d }
    }
    pub fn get(&self, i: usize) -> i64 {
        self.a.get(i).copied().unwrap_or(0)
    }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub p: BTreeMap<String, i64>,
    pub ev: Vec<Ev>,
}
fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{:02x}", b)).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok()).collect()
}
impl Case {
    pub fn new(prop: &str, seed: u64, index: u64) -> Case {
        Case { prop: prop.into(), seed, index, ..Default::default() }
    }
    pub fn get(&self, k: &str) -> i64 {
        self.p.get(k).copied().unwrap_or(0)
    }
    pub fn set(&mut self, k: &str, v: i64) {
        self.p.insert(k.into(), v);
    }
    pub fn of<'a>(&'a self, k: &'a str) -> impl Iterator<Item = &'a Ev> + 'a {
        self.ev.iter().filter(move |e| e.k == k)
    }
    pub fn write(&self, class: &str, msg: &str) -> String {
        let mut s = String::from("rapiddlt-sim-replay 1\n");
        s += &format!("prop {}\nseed {}\nindex {}\nclass {}\n", self.prop, self.seed, self.index, class);
        for l in msg.lines() {
            s += &format!("# {}\n", l);
        }
        for (k, v) in &self.p {
            s += &format!("p {} {}\n", k, v);
        }
        for e in &self.ev {
            s += &format!("e {}", e.k);
            for x in &e.a {
                s += &format!(" {}", x);
            }
            if !e.d.is_empty() {
                s += &format!(" x{}", hex(&e.d));
            }
            s.push('\n');
        }
        s
    }
    pub fn read(s: &str) -> Option<(Case, String)> {
        let mut c = Case::default();
        let mut class = String::new();
        let mut lines = s.lines();
        if lines.next()? != "rapiddlt-sim-replay 1" {
            return None;
        }
        for l in lines {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("prop") => c.prop = w.next()?.into(),
                Some("seed") => c.seed = w.next()?.parse().ok()?,
                Some("index") => c.index = w.next()?.parse().ok()?,
                Some("class") => class = w.collect::<Vec<_>>().join(" "),
                Some("p") => {
                    let k = w.next()?.to_string();
                    c.p.insert(k, w.next()?.parse().ok()?);
                }
                Some("e") => {
                    let mut e = Ev::new(w.next()?, &[]);
                    for x in w {
                        if let Some(h) = x.strip_prefix('x') {
                            e.d = unhex(h)?;
                        } else {
                            e.a.push(x.parse().ok()?);
                        }
                    }
                    c.ev.push(e);
                }
                _ => {}
            }
        }
        Some((c, class))
    }
}

/// Shrinks a failing case: `fails` must say whether a candidate still fails in the same way.
pub fn minimise(start: &Case, budget: usize, mut fails: impl FnMut(&Case) -> bool) -> (Case, usize) {
    let mut best = start.clone();
    let mut used = 0;
    let mut try_it = |c: &Case, used: &mut usize| -> bool {
        if *used >= budget {
            return false;
        }
        *used += 1;
        fails(c)
    };
    loop {
        let before = best.clone();
        // drop events, in shrinking blocks
        let mut size = (best.ev.len() + 1) / 2;
        while size >= 1 {
            let mut i = 0;
            while i < best.ev.len() {
                let mut c = best.clone();
                let hi = (i + size).min(c.ev.len());
                c.ev.drain(i..hi);
                if try_it(&c, &mut used) {
                    best = c;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size = (size + 1) / 2;
        }
        // smaller numbers
        for k in best.p.keys().cloned().collect::<Vec<_>>() {
            for cand in [0, 1, best.get(&k) / 2, best.get(&k) - 1] {
                if cand != best.get(&k) && (cand.abs() < best.get(&k).abs()) {
                    let mut c = best.clone();
                    c.set(&k, cand);
                    if try_it(&c, &mut used) {
                        best = c;
                    }
                }
            }
        }
        for i in 0..best.ev.len() {
            if !best.ev[i].d.is_empty() {
                for keep in [0, best.ev[i].d.len() / 2] {
                    let mut c = best.clone();
                    c.ev[i].d.truncate(keep);
                    if c != best && try_it(&c, &mut used) {
                        best = c;
                    }
                }
            }
            for j in 0..best.ev[i].a.len() {
                let v = best.ev[i].a[j];
                for cand in [0, 1, v / 2, v - v.signum()] {
                    if cand.abs() < best.ev[i].a[j].abs() {
                        let mut c = best.clone();
                        c.ev[i].a[j] = cand;
                        if try_it(&c, &mut used) {
                            best = c;
                        }
                    }
                }
            }
        }
        if best == before || used >= budget {
            return (best, used);
        }
    }
}

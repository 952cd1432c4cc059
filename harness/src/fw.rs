//! Search framework: kinds of cases, generators, watchdog, replay files.
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub kind: &'static str,
    pub b: Vec<Vec<u8>>,
    pub n: Vec<u128>,
}
impl Case {
    pub fn new(kind: &'static str) -> Self {
        Case { kind, b: vec![], n: vec![] }
    }
    pub fn b(mut self, x: impl AsRef<[u8]>) -> Self {
        self.b.push(x.as_ref().to_vec());
        self
    }
    pub fn n(mut self, x: impl TryInto<u128>) -> Self {
        self.n.push(x.try_into().unwrap_or(0));
        self
    }
    pub fn s(&self, i: usize) -> String {
        String::from_utf8_lossy(&self.b[i]).to_string()
    }
    pub fn json(&self) -> String {
        let b: Vec<String> = self.b.iter().map(|x| format!("\"{}\"", hex(x))).collect();
        let t: Vec<String> = self
            .b
            .iter()
            .map(|x| {
                let s = String::from_utf8_lossy(&x[..x.len().min(200)]).to_string();
                serde_json::to_string(&s).unwrap()
            })
            .collect();
        let n: Vec<String> = self.n.iter().map(|x| format!("\"{x}\"")).collect();
        format!(
            "{{\"kind\":\"{}\",\"b\":[{}],\"text\":[{}],\"n\":[{}]}}",
            self.kind,
            b.join(","),
            t.join(","),
            n.join(",")
        )
    }
    /// shortened, for evidence samples
    pub fn sample(&self) -> String {
        let t: Vec<String> = self
            .b
            .iter()
            .map(|x| {
                if x.len() > 96 {
                    format!("{:?}..({} bytes)", String::from_utf8_lossy(&x[..48]), x.len())
                } else {
                    format!("{:?}", String::from_utf8_lossy(x))
                }
            })
            .collect();
        format!("{} {} {:?}", self.kind, t.join(" "), self.n)
    }
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Ok(true): the case exercised the property; Ok(false): trivial (e.g. refused input); Err: violated.
pub type Check = fn(&Case) -> Result<bool, String>;
/// i-th case of the kind; the first ones enumerate systematically, the rest is random.
pub type Gen = fn(&mut Rng, u64) -> Option<Case>;
pub struct Kind {
    pub name: &'static str,
    pub props: &'static [&'static str],
    pub check: Check,
    pub gen: Gen,
    /// relative share of the time
    pub weight: u64,
}

/// literals of the current source that the reference source does not have (`VP_DICT`, written by check.py): values
/// the search tries more often. Empty on the unchanged tree.
pub struct Dict {
    pub ints: Vec<u128>,
    pub strs: Vec<String>,
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let mut d = Dict { ints: vec![], strs: vec![] };
        let t = std::env::var("VP_DICT").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        let j: serde_json::Value = serde_json::from_str(&t).unwrap_or_default();
        for x in j["ints"].as_array().into_iter().flatten() {
            if let Some(v) = x.as_str().and_then(|x| x.parse::<u128>().ok()) {
                for w in [v, v.wrapping_add(1), v.wrapping_sub(1), v.wrapping_mul(2)] {
                    if w != u128::MAX && !d.ints.contains(&w) { d.ints.push(w); }
                }
            }
        }
        for x in j["strs"].as_array().into_iter().flatten() {
            if let Some(v) = x.as_str() { d.strs.push(v.to_string()); }
        }
        d
    })
}

pub struct Rng(pub u64);
impl Rng {
    /// sometimes an integer of the dictionary that is below n
    pub fn dint(&mut self, rate: u64, n: u128) -> Option<u128> {
        let d = &dict().ints;
        if d.is_empty() || self.next() % rate != 0 { return None; }
        let v = d[(self.next() % d.len() as u64) as usize];
        if v < n { Some(v) } else { None }
    }
    pub fn dstr(&mut self, rate: u64) -> Option<&'static str> {
        let d = &dict().strs;
        if d.is_empty() || self.next() % rate != 0 { return None; }
        Some(&d[(self.next() % d.len() as u64) as usize])
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else if let Some(v) = if n > 5 { self.dint(10, n as u128) } else { None } {
            v as usize
        } else {
            (self.next() % n as u64) as usize
        }
    }
    /// a length, usually below n
    pub fn len(&mut self, n: usize) -> usize {
        if let Some(v) = self.dint(8, 20000) { v as usize } else { self.below(n) }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn chance(&mut self, n: usize) -> bool {
        n > 0 && self.next() % n as u64 == 0
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mode = self.below(8);
        let mut v: Vec<u8> = (0..n).map(|_| self.next() as u8).collect();
        match mode {
            0 => v.iter_mut().for_each(|x| *x = 0),
            1 => v.iter_mut().for_each(|x| *x = 0xff),
            2 => {
                let k = self.below(n + 1);
                v[..k].iter_mut().for_each(|x| *x = 0)
            }
            _ => {}
        }
        if n > 0 {
            if let Some(x) = self.dint(6, 256) { let k = (self.next() % n as u64) as usize; v[k] = x as u8; }
            if let Some(x) = self.dstr(8) { let k = (self.next() % n as u64) as usize; for (i, b) in x.bytes().enumerate() { if k + i < n { v[k + i] = b; } } }
        }
        v
    }
    /// a number, biased to word and Base64 boundaries
    pub fn num(&mut self, bits: u32) -> u128 {
        let full = if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 };
        let r = ((self.next() as u128) << 64) | self.next() as u128;
        if let Some(v) = self.dint(5, u128::MAX) { return v & full; }
        match self.below(5) {
            0 => r & full,
            1 => {
                let k = self.below(bits as usize) as u32;
                (r >> 3) & ((1u128 << k) - 1).max(1) & full
            }
            2 => {
                let k = self.below(bits as usize) as u32;
                let d = self.below(5) as u128;
                ((1u128 << k).wrapping_add(d).wrapping_sub(2)) & full
            }
            3 => self.below(200) as u128 & full,
            _ => full - (self.below(4) as u128).min(full),
        }
    }
    pub fn b64(&mut self, n: usize) -> String {
        let mut s: Vec<u8> = (0..n).map(|_| crate::oracle::ALPHA[self.below(64)]).collect();
        if n > 0 {
            if let Some(x) = self.dstr(5) {
                if x.bytes().all(|b| crate::oracle::idx(b).is_some()) {
                    let k = if self.chance(3) { 0 } else { (self.next() % n as u64) as usize };
                    for (i, b) in x.bytes().enumerate() { if k + i < n { s[k + i] = b; } }
                }
            }
        }
        String::from_utf8(s).unwrap()
    }
}

struct Slot {
    case: Mutex<Option<Case>>,
    since: AtomicU64,
}

pub struct Report {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub per_kind: Vec<(String, u64, u64)>,
    pub samples: Vec<String>,
    pub failures: Vec<(Case, String)>,
}

pub fn run_case(check: Check, c: &Case) -> Result<bool, String> {
    match catch_unwind(AssertUnwindSafe(|| check(c))) {
        Ok(r) => r,
        Err(e) => {
            let m = if let Some(s) = e.downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = e.downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".to_string()
            };
            Err(format!("panicked: {m}"))
        }
    }
}

pub fn search(prop: &str, kinds: &[Kind], seed: u64, secs: f64, threads: usize, known: &[String], trace: Option<String>) -> Report {
    let sel: Vec<usize> = (0..kinds.len()).filter(|&i| prop == "ALL" || kinds[i].props.contains(&prop)).collect();
    let start = Instant::now();
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new((0..threads).map(|_| Slot { case: Mutex::new(None), since: AtomicU64::new(u64::MAX) }).collect());
    let failures: Mutex<Vec<(Case, String)>> = Mutex::new(vec![]);
    let totals: Mutex<(u64, HashSet<u64>, Vec<(String, u64, u64)>, Vec<String>)> = Mutex::new((0, HashSet::new(), vec![], vec![]));
    let wsum: u64 = sel.iter().map(|&i| kinds[i].weight).sum::<u64>().max(1);
    // watchdog: a case that runs for long is a failure of its own (endless loop)
    {
        let slots = slots.clone();
        let stop = stop.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if stop.load(Ordering::Relaxed) {
                return;
            }
            let now = start.elapsed().as_millis() as u64;
            for s in slots.iter() {
                let t = s.since.load(Ordering::Relaxed);
                if t != u64::MAX && now > t + 60_000 {
                    let c = s.case.lock().unwrap().clone();
                    if let Some(c) = c {
                        println!("{{\"hang\":{}}}", c.json());
                        std::process::exit(3);
                    }
                }
            }
        });
    }
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (failures, totals, stop, slots, sel) = (&failures, &totals, &stop, &slots, &sel);
            let known = &known;
            let trace = &trace;
            sc.spawn(move || {
                let mut ev = 0u64;
                let mut seen: HashSet<u64> = HashSet::new();
                let mut per: Vec<(String, u64, u64)> = vec![];
                let mut samples = vec![];
                for &ki in sel {
                    let k = &kinds[ki];
                    let budget = secs * k.weight as f64 / wsum as f64;
                    let t0 = Instant::now();
                    let mut i = t as u64;
                    let (mut ke, mut kn) = (0u64, 0u64);
                    while !stop.load(Ordering::Relaxed) {
                        if ke % 16 == 0 && t0.elapsed().as_secs_f64() > budget {
                            break;
                        }
                        let mut rng = Rng(seed.wrapping_mul(0x1000193) ^ (ki as u64) << 56 ^ i.wrapping_mul(0x2545F4914F6CDD1D));
                        rng.next();
                        let c = (k.gen)(&mut rng, i);
                        i += threads as u64;
                        let c = match c {
                            Some(c) => c,
                            None => break,
                        };
                        if let Some(tr) = trace {
                            let _ = std::fs::write(format!("{tr}.{t}"), c.json());
                        }
                        *slots[t].case.lock().unwrap() = Some(c.clone());
                        slots[t].since.store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
                        let r = run_case(k.check, &c);
                        slots[t].since.store(u64::MAX, Ordering::Relaxed);
                        ev += 1;
                        ke += 1;
                        match r {
                            Ok(true) => {
                                kn += 1;
                                if samples.len() < 3 && ke > 2 {
                                    samples.push(c.sample());
                                }
                                if seen.len() < 400_000 {
                                    use std::hash::{Hash, Hasher};
                                    let mut h = std::collections::hash_map::DefaultHasher::new();
                                    c.hash(&mut h);
                                    seen.insert(h.finish());
                                }
                            }
                            Ok(false) => {}
                            Err(m) => {
                                let mut f = failures.lock().unwrap();
                                let kf = known.iter().any(|x| m.starts_with(&format!("[{x}]")));
                                if !f.iter().any(|(_, m2)| kf && m2.split(']').next() == m.split(']').next()) {
                                    f.push((c, m));
                                }
                                if !kf {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    per.push((k.name.to_string(), ke, kn));
                }
                let mut tt = totals.lock().unwrap();
                tt.0 += ev;
                tt.1.extend(seen);
                for (n, a, b) in per {
                    if let Some(x) = tt.2.iter_mut().find(|x| x.0 == n) {
                        x.1 += a;
                        x.2 += b;
                    } else {
                        tt.2.push((n, a, b));
                    }
                }
                if tt.3.len() < 12 {
                    tt.3.extend(samples);
                }
            });
        }
    });
    stop.store(true, Ordering::Relaxed);
    let t = totals.into_inner().unwrap();
    Report { evaluations: t.0, distinct_nontrivial: t.1.len() as u64, per_kind: t.2, samples: t.3, failures: failures.into_inner().unwrap() }
}

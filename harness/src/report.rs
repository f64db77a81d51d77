//! Counters, violations, evidence fragments, parallel driver.
use std::collections::HashSet;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::time::Instant;

pub const SHARDS: usize = 64;

pub struct Rep {
    pub id: &'static str,
    pub thorough: bool,
    pub seed: u64,
    only: Option<String>,
    out: Option<String>,
    t0: Instant,
    states: Vec<Mutex<HashSet<u64>>>,
    outcomes: Vec<Mutex<HashSet<u64>>>,
    keyed: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub evals: AtomicU64,
    pub skipped: AtomicU64,
    pub nviol: AtomicU64,
    maxratio: Mutex<(f64, String)>,
    fastratio: AtomicU64,
    viol: Mutex<Vec<(String, String)>>,
    samples: Mutex<Vec<String>>,
    digest: Mutex<Vec<(String, u64)>>,
    notes: Mutex<Vec<(String, u64)>>,
    stop: AtomicBool,
    threads: AtomicUsize,
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn mix(mut x: u64) -> u64 {
    x = x.wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

impl Rep {
    pub fn new(id: &'static str) -> Rep {
        let mut only = None;
        let mut out = None;
        let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut a = std::env::args().skip(1);
        while let Some(x) = a.next() {
            match x.as_str() {
                "--only" => only = a.next(),
                "--out" => out = a.next(),
                "--tier" => thorough = a.next().as_deref() == Some("thorough"),
                _ => {
                    eprintln!("unknown argument {x}");
                    std::process::exit(3)
                }
            }
        }
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        std::panic::set_hook(Box::new(|_| {}));
        Rep {
            id,
            thorough,
            seed,
            only,
            out,
            t0: Instant::now(),
            states: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            outcomes: (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect(),
            keyed: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            evals: AtomicU64::new(0),
            skipped: AtomicU64::new(0),
            nviol: AtomicU64::new(0),
            maxratio: Mutex::new((0.0, String::new())),
            fastratio: AtomicU64::new(0),
            viol: Mutex::new(vec![]),
            samples: Mutex::new(vec![]),
            digest: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
            threads: AtomicUsize::new(8),
        }
    }
    pub fn set_threads(&self, n: usize) {
        self.threads.store(n, Relaxed)
    }
    pub fn elapsed(&self) -> f64 {
        self.t0.elapsed().as_secs_f64()
    }
    /// False when a replay is restricted to another case.
    pub fn wants(&self, key: &str) -> bool {
        match &self.only {
            None => true,
            Some(k) => k == key,
        }
    }
    pub fn state(&self, h: u64) {
        let h = mix(h);
        self.states[(h >> 58) as usize].lock().unwrap().insert(h);
    }
    /// `n` states distinguished within a configuration whose key hashes to `kh`: counted once per key.
    pub fn states_keyed(&self, kh: u64, n: usize) {
        let h = mix(kh);
        if self.states[(h >> 58) as usize].lock().unwrap().insert(h) {
            self.keyed.fetch_add(n as u64 - (n > 0) as u64, Relaxed);
        }
    }
    pub fn states_bulk(&self, hs: impl Iterator<Item = u64>) {
        let mut b: Vec<Vec<u64>> = vec![vec![]; SHARDS];
        for h in hs {
            let h = mix(h);
            b[(h >> 58) as usize].push(h);
        }
        for (i, v) in b.into_iter().enumerate() {
            if !v.is_empty() {
                self.states[i].lock().unwrap().extend(v);
            }
        }
    }
    pub fn outcomes_bulk(&self, hs: impl Iterator<Item = u64>) {
        let mut b: Vec<Vec<u64>> = vec![vec![]; SHARDS];
        for h in hs {
            let h = mix(h);
            b[(h >> 58) as usize].push(h);
        }
        for (i, v) in b.into_iter().enumerate() {
            if !v.is_empty() {
                self.outcomes[i].lock().unwrap().extend(v);
            }
        }
    }
    pub fn trace(&self, points: usize) {
        self.traces.fetch_add(1, Relaxed);
        self.evals.fetch_add(points as u64, Relaxed);
        self.transitions.fetch_add((points as u64).saturating_sub(1), Relaxed);
    }
    pub fn ratio(&self, r: f64, what: impl FnOnce() -> String) {
        let mut m = self.maxratio.lock().unwrap();
        if r > m.0 {
            *m = (r, what());
        }
    }
    /// Like `ratio`, without the lock in the common case.
    pub fn ratio_fast(&self, r: f64, what: &str) {
        let cur = f64::from_bits(self.fastratio.load(Relaxed));
        if r > cur {
            self.fastratio.store(r.to_bits(), Relaxed);
            self.ratio(r, || what.to_string());
        }
    }
    pub fn maxratio(&self) -> f64 {
        self.maxratio.lock().unwrap().0
    }
    pub fn note(&self, k: &str, n: u64) {
        let mut v = self.notes.lock().unwrap();
        if let Some(e) = v.iter_mut().find(|e| e.0 == k) {
            e.1 += n;
        } else {
            v.push((k.to_string(), n));
        }
    }
    /// Something every build must agree on, for the comparison of builds afterwards.
    pub fn digest(&self, k: &str, h: u64) {
        self.digest.lock().unwrap().push((k.to_string(), h));
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 6 {
            v.push(s());
        }
    }
    pub fn violation(&self, key: &str, what: String) {
        let n = self.nviol.fetch_add(1, Relaxed);
        if n < 24 {
            self.viol.lock().unwrap().push((key.to_string(), what));
        }
        if n > 2000 {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    /// Run one keyed case: a panic inside is a violation.
    pub fn case(&self, key: &str, f: impl FnOnce()) {
        if !self.wants(key) || self.stopped() {
            return;
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        if let Err(e) = r {
            let m = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| "?".into());
            self.violation(key, format!("panic: {m}"));
        }
    }
    pub fn par<I: Sync>(&self, items: &[I], f: impl Fn(&I) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..self.threads.load(Relaxed).min(items.len().max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || self.stopped() {
                                break;
                            }
                            f(&items[i]);
                        }
                    })
                    .unwrap();
            }
        });
    }
    pub fn finish(&self) -> ! {
        let states: usize = self.states.iter().map(|s| s.lock().unwrap().len()).sum();
        let states = states as u64 + self.keyed.load(Relaxed);
        let outc: usize = self.outcomes.iter().map(|s| s.lock().unwrap().len()).sum();
        let mut viol = self.viol.lock().unwrap().clone();
        viol.sort_by_key(|v| v.0.len());
        let nv = self.nviol.load(Relaxed);
        let mr = self.maxratio.lock().unwrap().clone();
        let mut j = String::from("{");
        j += &format!("\"states\":{states},\"outcomes\":{outc},");
        j += &format!(
            "\"transitions\":{},\"traces\":{},\"evaluations\":{},\"skipped\":{},",
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.evals.load(Relaxed),
            self.skipped.load(Relaxed)
        );
        j += &format!("\"max_error_over_tolerance\":{:.4},\"max_error_case\":{},", mr.0.min(1e300), esc(&mr.1));
        j += "\"notes\":{";
        let notes = self.notes.lock().unwrap().clone();
        j += &notes.iter().map(|(k, n)| format!("{}:{}", esc(k), n)).collect::<Vec<_>>().join(",");
        j += "},\"digest\":{";
        let dg = self.digest.lock().unwrap().clone();
        j += &dg.iter().map(|(k, n)| format!("{}:\"{n:016x}\"", esc(k))).collect::<Vec<_>>().join(",");
        j += "},\"samples\":[";
        let sm = self.samples.lock().unwrap().clone();
        j += &sm.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",");
        j += &format!("],\"violations\":{nv},\"viol\":[");
        j += &viol.iter().map(|(k, w)| format!("[{},{}]", esc(k), esc(w))).collect::<Vec<_>>().join(",");
        j += &format!("],\"wall_s\":{:.2}}}", self.elapsed());
        match &self.out {
            Some(p) => std::fs::write(p, &j).expect("write result"),
            None => println!("{j}"),
        }
        for (k, w) in viol.iter().take(6) {
            eprintln!("[{}] {k}\n    {w}", self.id);
        }
        std::process::exit(if nv > 0 { 1 } else { 0 })
    }
}

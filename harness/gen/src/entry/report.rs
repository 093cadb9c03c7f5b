//! Verdicts and evidence of the checks of the generators.
use std::collections::{BTreeMap, HashSet};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::time::Instant;

pub struct Ctx {
    pub id: String,
    pub quick: bool,
    /// compare the reference with bison instead of the generator with the reference
    #[cfg(feature = "tables")]
    pub bison: Option<super::bison::Conf>,
    t0: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub skipped: AtomicU64,
    stop: AtomicBool,
    nviol: AtomicU64,
    viols: Mutex<Vec<(String, String)>>,
    extra: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    outcomes: Mutex<HashSet<u64>>,
}

pub fn h64(x: &impl std::hash::Hash) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Ctx {
    pub fn new(id: &str, quick: bool) -> Ctx {
        Ctx {
            id: id.into(),
            quick,
            #[cfg(feature = "tables")]
            bison: None,
            t0: Instant::now(),
            states: 0.into(),
            transitions: 0.into(),
            traces: 0.into(),
            skipped: 0.into(),
            stop: false.into(),
            nviol: 0.into(),
            viols: Default::default(),
            extra: Default::default(),
            samples: Default::default(),
            outcomes: Default::default(),
        }
    }
    pub fn outcome(&self, h: u64) {
        self.outcomes.lock().unwrap().insert(h);
    }
    pub fn put(&self, k: &str, v: u64) {
        *self.extra.lock().unwrap().entry(k.into()).or_default() += v;
    }
    pub fn sample(&self, s: &str) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s.into());
        }
    }
    pub fn violation(&self, input: &str, what: String) {
        if self.nviol.fetch_add(1, Relaxed) >= 40 {
            self.stop.store(true, Relaxed);
        }
        let mut v = self.viols.lock().unwrap();
        if v.len() < 200 {
            v.push((input.into(), what));
        }
    }
    /// a failure that is reported as a known finding if the committed list has it
    pub fn known(&self, key: &str) {
        let list = std::env::var("VERIF_KNOWN").ok().and_then(|p| std::fs::read_to_string(p).ok()).unwrap_or_default();
        if list.lines().any(|l| l == format!("property={} {key}", self.id)) {
            println!("KNOWN-FINDING: property={} {key}", self.id);
            self.put("known_findings", 1);
        } else {
            self.violation(key, "fails, and is not a known finding".into());
        }
    }
    /// run f on 0..n on all cores
    pub fn par(&self, name: &str, n: u64, f: impl Fn(u64) + Sync) {
        let t = Instant::now();
        let next = AtomicU64::new(0);
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16);
        let chunk = (n / (threads as u64 * 64)).clamp(1, 1024);
        std::thread::scope(|s| {
            for _ in 0..threads {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || {
                        loop {
                            let a = next.fetch_add(chunk, Relaxed);
                            if a >= n || self.stop.load(Relaxed) {
                                break;
                            }
                            for i in a..(a + chunk).min(n) {
                                f(i);
                            }
                        }
                    })
                    .unwrap();
            }
        });
        self.put(&format!("space:{name}"), n);
        println!("  {name}: {n}, {:.1}s", t.elapsed().as_secs_f64());
    }
    pub fn finish(&self, evidence: &str) -> bool {
        let n = self.nviol.load(Relaxed);
        let mut replay = String::new();
        let dir = std::env::var("VERIF_REPLAY_DIR").unwrap_or_else(|_| "/verif/evidence/replay".into());
        let mut v = self.viols.lock().unwrap();
        v.sort_by_key(|v| (v.0.len(), v.0.clone()));
        for (i, (input, what)) in v.iter().take(5).enumerate() {
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{}-{}.json", self.id, i + 1);
            let body = format!("{{\n \"property\": {},\n \"input\": {},\n \"what\": {}\n}}\n", esc(&self.id), esc(input), esc(what));
            let _ = std::fs::write(&path, body);
            if i == 0 {
                replay = path.clone();
            }
            println!("  {path}\n    input: {input:?}\n    {what}");
        }
        let mut cov = vec![
            format!("  \"states\": {}", self.states.load(Relaxed)),
            format!("  \"transitions\": {}", self.transitions.load(Relaxed)),
            format!("  \"traces_validated_against_impl\": {}", self.traces.load(Relaxed)),
            format!("  \"outside_the_property\": {}", self.skipped.load(Relaxed)),
            format!("  \"distinct_models\": {}", self.outcomes.lock().unwrap().len()),
            format!("  \"exhaustive\": {}", !self.stop.load(Relaxed)),
            format!("  \"samples\": [{}]", self.samples.lock().unwrap().iter().map(|s| esc(s)).collect::<Vec<_>>().join(", ")),
        ];
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.push(format!("  {}: {v}", esc(k)));
        }
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {seed},\n \"level\": \"model_checking\",\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [],\n \"wall_s\": {:.2},\n \"violations\": {n}\n}}\n",
            esc(&self.id),
            if self.quick { "quick" } else { "thorough" },
            cov.join(",\n"),
            self.t0.elapsed().as_secs_f64()
        );
        std::fs::write(evidence, body).expect("write evidence");
        println!(
            "{}: {} model states, {} model transitions, {} inputs, {} outside the property, {:.1}s, {n} violation(s)",
            self.id,
            self.states.load(Relaxed),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.skipped.load(Relaxed),
            self.t0.elapsed().as_secs_f64()
        );
        if n > 0 {
            println!("VIOLATION property={} replay={replay}", self.id);
        }
        n == 0
    }
}

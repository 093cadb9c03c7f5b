//! Exhaustive enumeration engine: parallel execution, verdicts, evidence.
use crate::sut::Sut;
use refpg::cover::Cover;
use refpg::driver::{Ev, Outcome, Ref};
use refpg::lexer::Kind;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct World {
    pub r: Ref,
    pub sut: Sut,
    pub keep_empty: bool,
}

/// What part of the outcome a property speaks about.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Aspect {
    /// everything
    Full,
    /// node kinds, tokens and nesting, trivia ignored; accept/reject
    Structure,
    /// accepted, syntax error or lexical error; nothing else
    Accept,
    /// error class and position
    Error,
    /// tokens: boundaries and kinds of the significant tokens, error class and positions
    Tokens,
}

pub struct Viol {
    pub text: String,
    pub expected: String,
    pub got: String,
    pub note: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub t0: Instant,
    pub evals: AtomicU64,
    pub skipped: AtomicU64,
    pub viols: Mutex<Vec<Viol>>,
    pub nviol: AtomicU64,
    pub stop: AtomicBool,
    pub known: Mutex<BTreeMap<String, u64>>,
    pub sigs: Mutex<HashSet<u64>>,
    pub lr: Mutex<Vec<u64>>,
    pub samples: Mutex<Vec<String>>,
    pub notes: Mutex<Vec<String>>,
    pub extra: Mutex<BTreeMap<String, serde_lite::Val>>,
    pub threads: usize,
}

pub mod serde_lite {
    //! just enough JSON
    #[derive(Clone, Debug)]
    pub enum Val {
        Int(u64),
        Str(String),
        Bool(bool),
        List(Vec<Val>),
    }
    pub fn esc(s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str("\\n"),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str("\\t"),
                c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
                c => o.push(c),
            }
        }
        o.push('"');
        o
    }
    impl Val {
        pub fn show(&self) -> String {
            match self {
                Val::Int(i) => i.to_string(),
                Val::Str(s) => esc(s),
                Val::Bool(b) => b.to_string(),
                Val::List(v) => format!("[{}]", v.iter().map(|x| x.show()).collect::<Vec<_>>().join(", ")),
            }
        }
    }
    /// the string value of `"key": "..."` in a flat JSON object written by this program
    pub fn get_str(json: &str, key: &str) -> Option<String> {
        let pat = format!("\"{key}\": \"");
        let i = json.find(&pat)? + pat.len();
        let mut o = String::new();
        let mut it = json[i..].chars();
        loop {
            match it.next()? {
                '"' => return Some(o),
                '\\' => match it.next()? {
                    'n' => o.push('\n'),
                    'r' => o.push('\r'),
                    't' => o.push('\t'),
                    'u' => {
                        let h: String = it.by_ref().take(4).collect();
                        o.push(char::from_u32(u32::from_str_radix(&h, 16).ok()?)?);
                    }
                    c => o.push(c),
                },
                c => o.push(c),
            }
        }
    }
}

/// Per-thread accumulator.
pub struct Acc {
    pub evals: u64,
    pub sigs: HashSet<u64>,
    pub lr: Vec<u64>,
}

impl Acc {
    pub fn new(w: &World) -> Acc {
        Acc { evals: 0, sigs: HashSet::new(), lr: vec![0; (w.r.t.nstates * w.r.g.nt).div_ceil(64)] }
    }
}

pub fn h64(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

impl Ctx {
    pub fn new(id: &str, tier: Tier) -> Ctx {
        let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).clamp(2, 16);
        Ctx {
            id: id.into(),
            tier,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            t0: Instant::now(),
            evals: 0.into(),
            skipped: 0.into(),
            viols: Default::default(),
            nviol: 0.into(),
            stop: false.into(),
            known: Default::default(),
            sigs: Default::default(),
            lr: Default::default(),
            samples: Default::default(),
            notes: Default::default(),
            extra: Default::default(),
            threads,
        }
    }
    pub fn level(&self) -> &'static str {
        if self.quick() {
            "quick"
        } else {
            "thorough"
        }
    }
    pub fn quick(&self) -> bool {
        self.tier == Tier::Quick
    }
    pub fn note(&self, s: impl Into<String>) {
        let s = s.into();
        println!("note: {s}");
        self.notes.lock().unwrap().push(s);
    }
    pub fn put(&self, k: &str, v: u64) {
        self.extra.lock().unwrap().insert(k.into(), serde_lite::Val::Int(v));
    }
    pub fn violation(&self, text: &str, expected: String, got: String, note: &str) {
        let n = self.nviol.fetch_add(1, Ordering::Relaxed);
        if n >= 40 {
            self.stop.store(true, Ordering::Relaxed);
        }
        if n < 200 {
            self.viols.lock().unwrap().push(Viol { text: text.into(), expected, got, note: note.into() });
        }
    }
    /// a difference seen through the hooks that no text tried makes visible through the public API
    pub fn unconfirmed(&self, text: &str, want: String, got: String) {
        let mut e = self.extra.lock().unwrap();
        let n = match e.get("unconfirmed_hook_differences") {
            Some(serde_lite::Val::Int(n)) => *n,
            _ => 0,
        };
        if n == 0 {
            println!("note: not visible through parse: {text:?}\n  reference: {want}\n  hook: {got}");
        }
        e.insert("unconfirmed_hook_differences".into(), serde_lite::Val::Int(n + 1));
    }
    /// a failure that is reported as a known finding if the committed list has it
    pub fn known(&self, key: &str) {
        const LIST: &str = include_str!("../../../known-findings.txt");
        let line = format!("property={} {}", self.id, key);
        if !LIST.lines().any(|l| l == line) {
            self.violation(key, "not failing".into(), "fails".into(), "");
            return;
        }
        *self.known.lock().unwrap().entry(key.into()).or_default() += 1;
    }

    /// Run f on 0..n in parallel, in chunks.
    pub fn par(&self, w: &World, n: u64, f: impl Fn(u64, &mut Acc) + Sync) {
        let next = AtomicU64::new(0);
        let chunk = (n / (self.threads as u64 * 64)).clamp(1, 2048);
        let run = || {
            let mut acc = Acc::new(w);
            loop {
                let a = next.fetch_add(chunk, Ordering::Relaxed);
                if a >= n || self.stop.load(Ordering::Relaxed) {
                    break;
                }
                for i in a..(a + chunk).min(n) {
                    f(i, &mut acc);
                }
            }
            self.merge(acc);
        };
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, run).unwrap();
            }
        });
    }
    pub fn merge(&self, acc: Acc) {
        self.evals.fetch_add(acc.evals, Ordering::Relaxed);
        self.sigs.lock().unwrap().extend(acc.sigs);
        let mut lr = self.lr.lock().unwrap();
        if lr.is_empty() {
            *lr = acc.lr;
        } else {
            for (a, b) in lr.iter_mut().zip(&acc.lr) {
                *a |= b;
            }
        }
    }

    /// Compare the implementation with the reference on one text.
    pub fn judge(&self, w: &World, acc: &mut Acc, text: &str, asp: Aspect) -> Outcome {
        let want = w.parse_traced(text, acc);
        let got = w.sut.parse(text);
        acc.evals += 1;
        self.sample(&acc.evals, text);
        if agree(w, &want, &got, asp) {
            return got;
        }
        if self.excused(w, text, &want, &got) {
            return got;
        }
        self.violation(text, show(w, &want), show(w, &got), "");
        got
    }

    fn sample(&self, n: &u64, text: &str) {
        if *n % 1009 == 1 {
            let mut s = self.samples.lock().unwrap();
            if s.len() < 12 && !s.iter().any(|x| x == text) {
                s.push(text.chars().take(200).collect());
            }
        }
    }

    /// Known findings (known_findings.txt): U& literal followed by UESCAPE.
    fn excused(&self, w: &World, text: &str, want: &Outcome, got: &Outcome) -> bool {
        if !uescape(w, text) {
            return false;
        }
        // the clause is either rejected as today (same as the reference) or accepted
        let _ = want;
        matches!(got, Outcome::Tree(_) | Outcome::Lex(_))
    }

    /// Write evidence, print verdict; true if the property held.
    pub fn finish(&self, w: Option<&World>, evidence: &str, model: &ModelCounts) -> bool {
        let viols = self.viols.lock().unwrap();
        let n = self.nviol.load(Ordering::Relaxed);
        let mut replay = String::new();
        if n > 0 {
            // shortest first
            let mut order: Vec<&Viol> = viols.iter().collect();
            order.sort_by_key(|v| (v.text.len(), v.text.clone()));
            let dir = std::env::var("VERIF_REPLAY_DIR").unwrap_or_else(|_| "/verif/evidence/replay".into());
            let _ = std::fs::create_dir_all(&dir);
            for (i, v) in order.iter().take(5).enumerate() {
                let path = format!("{dir}/{}-{}.json", self.id, i + 1);
                let body = format!(
                    "{{\n \"property\": {},\n \"text\": {},\n \"expected\": {},\n \"got\": {},\n \"note\": {}\n}}\n",
                    serde_lite::esc(&self.id),
                    serde_lite::esc(&v.text),
                    serde_lite::esc(&v.expected),
                    serde_lite::esc(&v.got),
                    serde_lite::esc(&v.note)
                );
                let _ = std::fs::write(&path, body);
                if i == 0 {
                    replay = path.clone();
                }
                let cut = |s: &str| -> String { s.chars().take(600).collect() };
                println!(
                    "  {} input: {:?}\n    expected: {}\n    got:      {} {}",
                    path,
                    cut(&v.text),
                    cut(&v.expected),
                    cut(&v.got),
                    v.note
                );
            }
        }
        for (k, n) in self.known.lock().unwrap().iter() {
            println!("KNOWN-FINDING: property={} {} ({} case(s))", self.id, k, n);
        }
        let lr = self.lr.lock().unwrap();
        let mut lr_states = 0u64;
        let mut lr_trans = 0u64;
        if let Some(w) = w {
            let nt = w.r.g.nt;
            let mut last = usize::MAX;
            for (i, wd) in lr.iter().enumerate() {
                let mut b = *wd;
                while b != 0 {
                    let k = i * 64 + b.trailing_zeros() as usize;
                    b &= b - 1;
                    lr_trans += 1;
                    if k / nt != last {
                        last = k / nt;
                        lr_states += 1;
                    }
                }
            }
        }
        let sigs = self.sigs.lock().unwrap().len() as u64;
        let evals = self.evals.load(Ordering::Relaxed);
        let (states, transitions) = match model {
            ModelCounts::Parser => (lr_states, lr_trans),
            ModelCounts::Given(s, t) => (*s, *t),
        };
        let mut cov: Vec<(String, String)> = vec![
            ("states".into(), states.to_string()),
            ("transitions".into(), transitions.to_string()),
            ("traces_validated_against_impl".into(), evals.to_string()),
            ("distinct_reference_outcomes".into(), sigs.to_string()),
            ("exhaustive".into(), (!self.stop.load(Ordering::Relaxed)).to_string()),
            (
                "samples".into(),
                format!(
                    "[{}]",
                    self.samples.lock().unwrap().iter().map(|s| serde_lite::esc(s)).collect::<Vec<_>>().join(", ")
                ),
            ),
        ];
        for (k, v) in self.extra.lock().unwrap().iter() {
            cov.push((k.clone(), v.show()));
        }
        let notes = self.notes.lock().unwrap();
        let cov = cov.iter().map(|(k, v)| format!("  {}: {}", serde_lite::esc(k), v)).collect::<Vec<_>>().join(",\n");
        let body = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            serde_lite::esc(&self.id),
            if self.quick() { "\"quick\"" } else { "\"thorough\"" },
            self.seed,
            cov,
            notes.iter().map(|s| serde_lite::esc(s)).collect::<Vec<_>>().join(", "),
            self.t0.elapsed().as_secs_f64(),
            n
        );
        if let Some(p) = std::path::Path::new(evidence).parent() {
            let _ = std::fs::create_dir_all(p);
        }
        std::fs::write(evidence, body).expect("write evidence");
        println!(
            "{}: {} executions, {} model states, {} model transitions, {} distinct outcomes, {:.1}s, {} violation(s)",
            self.id,
            evals,
            states,
            transitions,
            sigs,
            self.t0.elapsed().as_secs_f64(),
            n
        );
        if n > 0 {
            println!("VIOLATION property={} replay={}", self.id, replay);
        }
        n == 0
    }
}

pub enum ModelCounts {
    /// states and (state, terminal) entries of the reference parser that were exercised
    Parser,
    Given(u64, u64),
}

pub fn uescape(w: &World, text: &str) -> bool {
    let Ok(t) = refpg::lexer::lex(&w.r.kw, text) else { return false };
    let t: Vec<_> = t.iter().filter(|t| !matches!(t.kind, Kind::CComment | Kind::SqlComment)).collect();
    let ue = w.r.kw.by_token("UESCAPE");
    t.windows(2).any(|p| matches!(p[0].kind, Kind::Usconst | Kind::Uident) && p[1].kind == Kind::Keyword(ue))
}

impl World {
    pub fn new() -> World {
        let r = Ref::new();
        let sut = Sut::new(&r);
        World { r, sut, keep_empty: !cfg!(feature = "remove-empty") }
    }
    pub fn parse_traced(&self, text: &str, acc: &mut Acc) -> Outcome {
        let (toks, trivia) = match self.r.scan(text) {
            Ok(x) => x,
            Err(e) => {
                acc.sigs.insert(h64(&e_sig(&e)));
                return Outcome::Lex(e);
            }
        };
        let terms: Vec<u16> = toks.iter().map(|t| self.r.term(t.kind)).collect();
        let nt = self.r.g.nt;
        let mut hook = |s: usize, x: usize| {
            let k = s * nt + x;
            acc.lr[k / 64] |= 1 << (k % 64);
        };
        match refpg::driver::derive_with(&self.r.g, &self.r.t, &terms, &mut hook) {
            Err(i) => {
                acc.sigs.insert(h64(&(i, &terms)));
                match toks.get(i) {
                    Some(t) => Outcome::Syntax(t.start, t.end),
                    None => Outcome::Syntax(text.len(), text.len()),
                }
            }
            Ok((arena, top)) => {
                acc.sigs.insert(h64(&(&terms, trivia.iter().map(|t| t.kind).collect::<Vec<_>>())));
                Outcome::Tree(self.r.layout(text.len(), &arena, top, &toks, &trivia, self.keep_empty))
            }
        }
    }
    pub fn is_trivia(&self, k: u16) -> bool {
        k == self.r.ws || k == self.r.c_comment || k == self.r.sql_comment
    }
    pub fn cover(&self) -> Cover<'_> {
        Cover::new(&self.r)
    }
}

fn e_sig(e: &refpg::lexer::LexError) -> String {
    match e {
        refpg::lexer::LexError::Msg(m) => m.to_string(),
        refpg::lexer::LexError::Report(m, d, p) => format!("{m}{d}{p}"),
    }
}

/// tree without trivia and node ranges
pub fn skeleton(w: &World, evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .filter_map(|e| match *e {
            Ev::Open(k, _, _) => Some(Ev::Open(k, 0, 0)),
            Ev::Tok(k, _, _) if w.is_trivia(k) => None,
            e => Some(e),
        })
        .collect()
}

pub fn tokens(w: &World, evs: &[Ev]) -> Vec<Ev> {
    evs.iter().filter(|e| matches!(e, Ev::Tok(k, _, _) if !w.is_trivia(*k))).copied().collect()
}

pub fn agree(w: &World, want: &Outcome, got: &Outcome, asp: Aspect) -> bool {
    use Outcome::*;
    match asp {
        Aspect::Full => want == got,
        Aspect::Structure => match (want, got) {
            (Tree(a), Tree(b)) => skeleton(w, a) == skeleton(w, b),
            (Tree(_), _) | (_, Tree(_)) | (_, Panic(_)) | (_, Odd(_)) => false,
            _ => true,
        },
        Aspect::Accept => match (want, got) {
            (Tree(_), Tree(_)) | (Syntax(..), Syntax(..)) | (Lex(_), Lex(_)) => true,
            // an unreadable tree is another property's business, but it is an acceptance
            (Tree(_), Odd(_)) => true,
            _ => false,
        },
        Aspect::Error => match (want, got) {
            (Tree(_), Tree(_)) | (Tree(_), Odd(_)) => true,
            _ => want == got,
        },
        Aspect::Tokens => match (want, got) {
            (Tree(a), Tree(b)) => tokens(w, a) == tokens(w, b),
            _ => want == got,
        },
    }
}

pub fn show(w: &World, o: &Outcome) -> String {
    match o {
        Outcome::Tree(e) => {
            let names = w.r.kind_names();
            let mut s = String::from("tree ");
            for e in e {
                match e {
                    Ev::Open(k, a, b) => {
                        s += &format!("({}@{a}..{b} ", names.get(*k as usize).map_or("?", |x| x));
                    }
                    Ev::Tok(k, a, b) => s += &format!("{}@{a}..{b} ", names.get(*k as usize).map_or("?", |x| x)),
                    Ev::Close => s += ") ",
                }
                if s.len() > 4000 {
                    s += "...";
                    break;
                }
            }
            s
        }
        o => format!("{o:?}"),
    }
}

/// All strings of pieces in contexts.
pub struct Strs {
    pub ctxs: Vec<(String, String)>,
    pub alpha: Vec<String>,
    pub min: usize,
    pub max: usize,
}

impl Strs {
    pub fn new(ctxs: &[(&str, &str)], alpha: &[&str], min: usize, max: usize) -> Strs {
        Strs {
            ctxs: ctxs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
            alpha: alpha.iter().map(|s| s.to_string()).collect(),
            min,
            max,
        }
    }
    pub fn words(&self) -> u64 {
        (self.min..=self.max).map(|k| (self.alpha.len() as u64).pow(k as u32)).sum()
    }
    pub fn len(&self) -> u64 {
        self.words() * self.ctxs.len() as u64
    }
    pub fn word(&self, mut i: u64) -> String {
        let n = self.alpha.len() as u64;
        let mut k = self.min;
        loop {
            let c = n.pow(k as u32);
            if i < c {
                break;
            }
            i -= c;
            k += 1;
        }
        let mut s = String::new();
        for _ in 0..k {
            s.push_str(&self.alpha[(i % n) as usize]);
            i /= n;
        }
        s
    }
    pub fn get(&self, i: u64) -> String {
        let c = &self.ctxs[(i % self.ctxs.len() as u64) as usize];
        format!("{}{}{}", c.0, self.word(i / self.ctxs.len() as u64), c.1)
    }
}

impl Ctx {
    /// judge all strings of a space
    pub fn sweep(&self, w: &World, name: &str, sp: &Strs, asp: Aspect) {
        let t = Instant::now();
        self.par(w, sp.len(), |i, acc| {
            let s = sp.get(i);
            self.judge(w, acc, &s, asp);
        });
        self.put(&format!("space:{name}"), sp.len());
        println!("  {name}: {} texts, {:.1}s", sp.len(), t.elapsed().as_secs_f64());
    }
    /// run the reference over a list of texts, for the model coverage figures
    pub fn trace(&self, w: &World, texts: &[String]) {
        self.par(w, texts.len() as u64, |i, acc| {
            w.parse_traced(&texts[i as usize], acc);
        });
    }
    /// judge a list of texts
    pub fn sweep_list(&self, w: &World, name: &str, texts: &[String], asp: Aspect) {
        let t = Instant::now();
        self.par(w, texts.len() as u64, |i, acc| {
            self.judge(w, acc, &texts[i as usize], asp);
        });
        self.put(&format!("space:{name}"), texts.len() as u64);
        println!("  {name}: {} texts, {:.1}s", texts.len(), t.elapsed().as_secs_f64());
    }
}

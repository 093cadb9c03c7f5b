//! The two scanner engines against each other. The regular-expression build runs the check; the
//! automaton build is a peer process (VERIF_PEER) that answers for the other engine.
#![allow(dead_code)]
use super::grammar::rule_texts;
use crate::eng::*;
use refpg::driver::Outcome;
use std::io::Write;

/// all texts of the comparison, in a fixed order; the small level is about the scanner only
pub fn texts(w: &World, level: &str) -> Vec<String> {
    let quick = level != "thorough";
    let small = level == "small";
    let mut v = if small { vec![] } else { rule_texts(w) };
    let mut add = |sp: &Strs| v.extend((0..sp.len()).map(|i| sp.get(i)));
    let q = |a: usize, b: usize| if small { a - 1 } else if quick { a } else { b };
    let frag = super::lexical::FRAGMENTS.to_vec();
    add(&Strs::new(&[("SELECT ", "")], &frag, 1, q(2, 2)));
    let mut spaced: Vec<String> = frag.iter().map(|f| format!("{f}\n")).collect();
    spaced.extend(frag.iter().map(|f| format!("{f} ")));
    if !small {
        add(&Strs { ctxs: vec![("".into(), "".into())], alpha: spaced, min: 2, max: 2 });
    }
    let quoting: Vec<(String, String)> = ["'", "e'", "n'", "U&'", "b'", "x'", "\"", "U&\"", "$$", "$a$", "/*", "--"]
        .iter()
        .flat_map(|p| ["", "'", "\"", "$$", "$a$", "*/"].iter().map(move |s| (format!("SELECT {p}"), s.to_string())))
        .filter(|(p, s)| s.is_empty() || p.ends_with(&s[s.len() - 1..]) || (p.ends_with("/*") && s == "*/"))
        .collect();
    let body = ["'", "\"", "\\", "a", "$", "*", "/", "\n", " ", "é", "-", "0", "u00e9"];
    add(&Strs { ctxs: quoting, alpha: body.iter().map(|s| s.to_string()).collect(), min: 0, max: q(2, 3) });
    let esc = ["\\", "u", "U", "x", "0", "D83D", "DE00", "'", "n", "é", "\\uD83D", "\\uDE00", "\\u0000"];
    add(&Strs::new(&[("SELECT e'", ""), ("SELECT e'", "' a")], &esc, 1, q(3, 4)));
    add(&Strs::new(&[("SELECT 'a'", "'b'")], &[" ", "\n", "--c", "\t", "'", "/**/", "\\", "-", "é"], 1, q(3, 4)));
    let ops: Vec<String> = "~!@#^&|`?+-*/%<>=:.".chars().map(|c| c.to_string()).collect();
    add(&Strs { ctxs: vec![("SELECT 1 ".into(), " 2".into())], alpha: ops, min: 1, max: q(3, 4) });
    add(&Strs::new(&[("SELECT ", "")], &["0", "1", "9", "_", ".", "e", "x", "b", "o", "+", "a", "$", "é"], 1, q(4, 5)));
    add(&Strs::new(&[("SELECT ", "")], &["u", "U", "&", "'", "\"", "e", "E", "n", "N", "b", "B", "x", "X", "a"], 1, q(3, 4)));
    for k in super::lexical::all_words(w) {
        v.push(format!("SELECT {}", k.to_ascii_uppercase()));
        if small {
            continue;
        }
        v.push(format!("SELECT a AS {k}"));
        v.push(format!("SELECT \"{k}\".{k}x"));
    }
    v.extend(super::lexical::access_texts(if small { &[""] } else if quick { &["", "' b"] } else { &["", "' b", "a", "1", "\"", " ", "*/", "$$", "\n'"] }));
    v.extend(super::lexical::dollar_tags());
    let mut seen = std::collections::HashSet::new();
    v.retain(|t| seen.insert(h64(t)));
    v
}

pub fn digest(o: &Outcome) -> u64 {
    match o {
        // a panic message may name source positions
        Outcome::Panic(_) => 1,
        o => h64(&format!("{o:?}")),
    }
}

/// peer mode: one digest per text
pub fn hashes(level: &str, out: &str) -> i32 {
    let w = World::new();
    let c = Ctx::new("C17", Tier::Quick);
    let t = texts(&w, level);
    let res: Vec<std::sync::atomic::AtomicU64> = t.iter().map(|_| 0.into()).collect();
    c.par(&w, t.len() as u64, |i, _| {
        res[i as usize].store(digest(&w.sut.parse(&t[i as usize])), std::sync::atomic::Ordering::Relaxed);
    });
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for r in &res {
        writeln!(f, "{:x}", r.load(std::sync::atomic::Ordering::Relaxed)).unwrap();
    }
    0
}

/// peer mode: digest and display of the texts of a file (one per line, hexadecimal)
pub fn show_texts(inp: &str) -> i32 {
    let w = World::new();
    for l in std::fs::read_to_string(inp).unwrap().lines() {
        let b: Vec<u8> = (0..l.len() / 2).map(|i| u8::from_str_radix(&l[2 * i..2 * i + 2], 16).unwrap()).collect();
        let o = w.sut.parse(&String::from_utf8(b).unwrap());
        println!("{:x} {}", digest(&o), show(&w, &o).replace('\n', "\\n"));
    }
    0
}

/// peer mode: the automata
#[cfg(all(feature = "hooks", not(feature = "regex")))]
pub fn tables(out: &str) -> i32 {
    let mut f = std::io::BufWriter::new(std::fs::File::create(out).unwrap());
    for (name, tr, acc) in postgresql_cst_parser::scanner_hooks::automata() {
        writeln!(f, "{name} {}", acc.len()).unwrap();
        for (row, a) in tr.iter().zip(acc) {
            write!(f, "{a}").unwrap();
            for t in row {
                write!(f, " {t}").unwrap();
            }
            writeln!(f).unwrap();
        }
    }
    0
}
#[cfg(not(all(feature = "hooks", not(feature = "regex"))))]
pub fn tables(_: &str) -> i32 {
    3
}

/// The other build of the parser, running as a separate process
pub struct Peer<'a> {
    c: &'a Ctx,
    w: &'a World,
    pub bin: String,
    pub dir: String,
    /// how the outcomes of the peer and of this build are introduced in a report
    names: (&'static str, &'static str),
}

impl<'a> Peer<'a> {
    pub fn new(c: &'a Ctx, w: &'a World, names: (&'static str, &'static str)) -> Peer<'a> {
        let bin = std::env::var("VERIF_PEER").expect("VERIF_PEER");
        let dir = std::env::var("VERIF_SCRATCH").expect("VERIF_SCRATCH");
        Peer { c, w, bin, dir, names }
    }

    pub fn call(&self, args: &[&str]) -> (bool, String) {
        let out = format!("{}/peer.out", self.dir);
        let mut child = std::process::Command::new(&self.bin)
            .args(args)
            .stdin(std::process::Stdio::null())
            .stdout(std::fs::File::create(&out).unwrap())
            .spawn()
            .expect("run the peer");
        let t0 = std::time::Instant::now();
        let ok = loop {
            match child.try_wait().expect("wait for the peer") {
                Some(s) => break s.success(),
                None if t0.elapsed().as_secs() > if self.c.quick() { 240 } else { 1200 } => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break false;
                }
                None => std::thread::sleep(std::time::Duration::from_millis(5)),
            }
        };
        (ok, std::fs::read_to_string(&out).unwrap_or_default())
    }

    fn failed(&self, what: &str) {
        self.c.violation(what, "an answer from both builds".into(), format!("{}: the process crashes or hangs", self.names.0), "");
    }

    /// compare the two builds on a list of texts, reporting differences
    pub fn compare(&self, list: &[String], note: &str) -> u64 {
        let path = format!("{}/texts", self.dir);
        let hex: String = list.iter().map(|t| t.bytes().map(|b| format!("{b:02x}")).collect::<String>() + "\n").collect();
        std::fs::write(&path, hex).unwrap();
        let (ok, out) = self.call(&["peer-show", &path]);
        if !ok {
            self.failed(list.first().map_or("", |t| t));
            return 1;
        }
        let mut bad = 0;
        for (t, l) in list.iter().zip(out.lines()) {
            let (d, s) = l.split_once(' ').unwrap();
            let got = self.w.sut.parse(t);
            self.c.evals.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if format!("{:x}", digest(&got)) != d {
                bad += 1;
                self.c.violation(t, format!("{}: {s}", self.names.0), format!("{}: {}", self.names.1, show(self.w, &got)), note);
            }
        }
        bad
    }

    /// all texts of `texts` in both builds
    pub fn compare_all(&self, level: &str) {
        let (c, w) = (self.c, self.w);
        let t0 = std::time::Instant::now();
        let hp = format!("{}/hashes", self.dir);
        let (ok, _) = self.call(&["peer-hashes", level, &hp]);
        if !ok {
            return self.failed("the texts of this check");
        }
        let want: Vec<u64> =
            std::fs::read_to_string(&hp).unwrap().lines().map(|l| u64::from_str_radix(l, 16).unwrap()).collect();
        let list = texts(w, level);
        assert_eq!(want.len(), list.len(), "the two builds enumerate different texts");
        let bad: std::sync::Mutex<Vec<usize>> = Default::default();
        c.par(w, list.len() as u64, |i, acc| {
            let t = &list[i as usize];
            acc.evals += 1;
            let d = digest(&w.sut.parse(t));
            acc.sigs.insert(d);
            if d != want[i as usize] {
                bad.lock().unwrap().push(i as usize);
            }
        });
        {
            let mut s = c.samples.lock().unwrap();
            s.extend(list.iter().step_by(list.len() / 10).take(10).cloned());
        }
        c.put(&format!("space:texts with answers {}", self.names.0), list.len() as u64);
        println!("  texts with answers {}: {}, {:.1}s", self.names.0, list.len(), t0.elapsed().as_secs_f64());
        let mut bad = bad.into_inner().unwrap();
        bad.sort_by_key(|i| (list[*i].len(), *i));
        bad.truncate(50);
        let bad: Vec<String> = bad.into_iter().map(|i| list[i].clone()).collect();
        self.compare(&bad, "");
    }
}

pub type Automaton = (String, Vec<Vec<u8>>, Vec<u8>);

pub fn read_automata(path: &str) -> Vec<Automaton> {
    let txt = std::fs::read_to_string(path).unwrap();
    let mut it = txt.lines();
    let mut auto = vec![];
    while let Some(h) = it.next() {
        let (n, k) = h.split_once(' ').unwrap();
        let mut tr = vec![];
        let mut ac = vec![];
        for _ in 0..k.parse::<usize>().unwrap() {
            let r: Vec<u8> = it.next().unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
            ac.push(r[0]);
            tr.push(r[1..].to_vec());
        }
        auto.push((n.into(), tr, ac));
    }
    auto
}

#[cfg(feature = "regex")]
pub fn engines(c: &Ctx, w: &World) -> ModelCounts {
    let peer = Peer::new(c, w, ("as with the automata", "with regular expressions"));
    // product of the two engines
    let counts = product(c, &peer);
    peer.compare_all(c.level());
    ModelCounts::Given(counts.0, counts.1)
}
#[cfg(not(feature = "regex"))]
pub fn engines(_: &Ctx, _: &World) -> ModelCounts {
    panic!("built without the regular-expression engine")
}

#[cfg(all(feature = "regex", feature = "hooks"))]
fn product(c: &Ctx, peer: &Peer) -> (u64, u64) {
    use regex_automata::dfa::{dense, Automaton, StartKind};
    use regex_automata::util::primitives::StateID;
    use regex_automata::util::{start, syntax};
    use regex_automata::Anchored;
    use std::collections::{BTreeMap, HashMap, VecDeque};
    let tp = format!("{}/tables", peer.dir);
    if !peer.call(&["peer-tables", &tp]).0 {
        c.note("the automaton build has no hooks: engines compared on texts only");
        return (0, 0);
    }
    let auto = read_automata(&tp);
    let rules = postgresql_cst_parser::scanner_hooks::rules();
    let (mut states, mut trans) = (0u64, 0u64);
    // which automaton rule number stands for which kind of the other engine, per scanner state
    let mut cand: Vec<String> = vec![];
    for (name, tr, ac) in &auto {
        let mine: Vec<_> = rules.iter().filter(|r| r.0 == *name).collect();
        let dfas: Vec<Option<dense::DFA<Vec<u32>>>> = mine
            .iter()
            .map(|(_, p, eof, _)| {
                if *eof {
                    return None;
                }
                Some(
                    dense::Builder::new()
                        .configure(dense::Config::new().start_kind(StartKind::Anchored))
                        .syntax(syntax::Config::new().utf8(false))
                        .thompson(regex_automata::nfa::thompson::Config::new().utf8(false))
                        .build(p)
                        .expect("pattern"),
                )
            })
            .collect();
        let start: Vec<Option<StateID>> = dfas
            .iter()
            .map(|d| d.as_ref().map(|d| d.start_state(&start::Config::new().anchored(Anchored::Yes)).unwrap()))
            .collect();
        // product state: automaton state (None: stuck) and the state of every pattern
        type S = (Option<u8>, Vec<Option<StateID>>);
        let mut seen: HashMap<S, String> = HashMap::new();
        let mut queue: VecDeque<S> = VecDeque::new();
        let s0: S = (Some(0), start);
        seen.insert(s0.clone(), String::new());
        queue.push_back(s0);
        let mut map: BTreeMap<u8, BTreeMap<String, String>> = BTreeMap::new();
        let ctx = super::lexical::state_context(name);
        let reach = |p: &str| -> Vec<String> {
            let mut v = vec![];
            for c in ctx {
                for s in ["", " b", "'", "' b", "\"", "*/ b", "$$ b"] {
                    v.push(format!("{c}{p}{s}"));
                }
            }
            // a tag that opens and closes
            if name == "xdolq" {
                for s in [" b", "' b", "$$ b", " $$ b $a$"] {
                    v.push(format!("SELECT {p} x {p}{s}"));
                    v.push(format!("SELECT {p}x{p}{p}{s}"));
                }
            }
            v
        };
        // which pattern wins among those matching exactly here; matches are reported one byte late,
        // so ask what the end of the text would say
        let won = |st: &[Option<StateID>]| -> Option<usize> {
            (0..mine.len()).find(|i| match (&dfas[*i], st[*i]) {
                (Some(d), Some(s)) => d.is_match_state(d.next_eoi_state(s)),
                _ => false,
            })
        };
        while let Some(s) = queue.pop_front() {
            let path = seen[&s].clone();
            // at the end of the text the engines may only differ in what they do with the end itself
            if !path.is_empty() {
                let a = s.0.map_or(255, |q| ac[q as usize]);
                match (a, won(&s.1)) {
                    (255, None) => {}
                    (a, Some(i)) if a != 255 => {
                        map.entry(a).or_default().entry(mine[i].3.clone()).or_insert_with(|| path.clone());
                    }
                    _ => cand.extend(reach(&path)),
                }
            }
            // end of the text as a transition of the automata
            if let Some(q) = s.0 {
                let e = tr[q as usize][0];
                trans += 1;
                if e != 255 && !path.is_empty() && ac[e as usize] != 255 && ac[e as usize] != ac[q as usize] {
                    cand.extend(ctx.iter().map(|c| format!("{c}{path}")));
                }
            }
            let mut steps: Vec<String> = (1u8..128).map(|b| (b as char).to_string()).collect();
            steps.extend(super::lexical::wide().iter().map(|c| c.to_string()));
            for ch in steps {
                trans += 1;
                let mut n = s.clone();
                let mut mid = false;
                for (k, b) in ch.bytes().enumerate() {
                    if k > 0 {
                        // a match inside a character is extended to its end by both engines
                        let a = n.0.map_or(255, |q| ac[q as usize]);
                        mid |= match (a, won(&n.1)) {
                            (255, None) => false,
                            (a, Some(i)) => {
                                if a != 255 {
                                    map.entry(a).or_default().entry(mine[i].3.clone()).or_insert_with(|| format!("{path}{ch}"));
                                }
                                a == 255
                            }
                            _ => true,
                        };
                    }
                    n.0 = n.0.and_then(|q| match tr[q as usize][b as usize] {
                        255 => None,
                        t => Some(t),
                    });
                    for (d, st) in dfas.iter().zip(n.1.iter_mut()) {
                        if let (Some(d), Some(x)) = (d, *st) {
                            let y = d.next_state(x, b);
                            *st = if d.is_dead_state(y) { None } else { Some(y) };
                        }
                    }
                }
                let np = format!("{path}{ch}");
                if mid {
                    cand.extend(reach(&np));
                }
                if n.0.is_none() && n.1.iter().all(|x| x.is_none()) {
                    continue;
                }
                if !seen.contains_key(&n) {
                    seen.insert(n.clone(), np);
                    queue.push_back(n);
                }
            }
            assert!(seen.len() < 100_000, "product does not close");
        }
        states += seen.len() as u64;
        // the correspondence of rules must be one to one
        let mut back: BTreeMap<String, u8> = BTreeMap::new();
        for (a, kinds) in &map {
            if kinds.len() > 1 {
                for p in kinds.values() {
                    cand.extend(reach(p));
                }
            }
            for (k, p) in kinds {
                if let Some(b) = back.insert(k.clone(), *a) {
                    if b != *a {
                        cand.extend(reach(p));
                    }
                }
            }
        }
        println!("  product for {name}: {} patterns, {} automaton states, {} product states", mine.len(), ac.len(), seen.len());
    }
    cand.sort();
    cand.dedup();
    cand.sort_by_key(|t| t.len());
    c.put("product_disagreements_tried_as_texts", cand.len() as u64);
    cand.truncate(4000);
    let bad = peer.compare(&cand, "found by the product of the two engines");
    println!("  {} candidate texts from the product, {bad} differ", cand.len());
    (states, trans)
}
#[cfg(all(feature = "regex", not(feature = "hooks")))]
fn product(c: &Ctx, _: &Peer) -> (u64, u64) {
    c.note("the hooks are off: engines compared on texts only");
    (0, 0)
}

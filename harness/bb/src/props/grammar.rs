//! Properties of the grammar: acceptance, tree structure, error location.
use crate::eng::*;

/// Every non-error entry (state, terminal) of the reference parser, each in a sentence that goes on
/// to be accepted.
pub fn entry_cover(c: &Ctx, w: &World, asp: Aspect) {
    let t = std::time::Instant::now();
    let cov = w.cover();
    let ine = cov.inedges();
    let g = &w.r.g;
    let reach = std::sync::atomic::AtomicU64::new(0);
    let miss = std::sync::atomic::AtomicU64::new(0);
    c.par(w, w.r.t.nstates as u64, |s, acc| {
        let s = s as usize;
        for x in 0..g.nt {
            if w.r.t.act(s, x) == 0 || c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                continue;
            }
            if x > 0 && !cov.renderable(x as u16) {
                continue;
            }
            let Some((mut p, st)) = cov.find_prefix(s, x, &ine) else {
                miss.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                continue;
            };
            reach.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if x > 0 {
                p.push(x as u16);
                if let Some(rest) = cov.complete(&st) {
                    p.extend(rest);
                }
            }
            c.judge(w, acc, &cov.render(&p), asp);
        }
    });
    c.put("entries_driven", reach.into_inner());
    c.put("entries_not_reached_by_a_text", miss.into_inner());
    println!("  entry cover {:.1}s", t.elapsed().as_secs_f64());
}

/// Every error entry (state, terminal) behind the cheapest prefix of the state.
pub fn error_cover(c: &Ctx, w: &World, asp: Aspect) {
    let t = std::time::Instant::now();
    let cov = w.cover();
    let g = &w.r.g;
    c.par(w, w.r.t.nstates as u64, |s, acc| {
        let s = s as usize;
        let Some(p) = cov.prefix(s) else { return };
        let text = cov.render(&p);
        for x in 0..g.nt {
            if w.r.t.act(s, x) != 0 || c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                continue;
            }
            if x == 0 {
                c.judge(w, acc, &text, asp);
            } else if cov.renderable(x as u16) {
                let full = format!("{} {}", text, cov.render(&[x as u16]));
                c.judge(w, acc, &full, asp);
            }
        }
    });
    println!("  error cover {:.1}s", t.elapsed().as_secs_f64());
}

/// Every repetition the grammar allows, few and many times, whole and cut off, and with one part in the
/// middle or at the end that belongs to the plain sentence only.
pub fn growing(c: &Ctx, w: &World, asp: Aspect) {
    let t = std::time::Instant::now();
    let cov = w.cover();
    let reps = cov.repetitions();
    let sizes: &[usize] = if c.quick() { &[2, 3, 7, 17, 70, 260, 1030] } else { &[2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 65, 130, 260, 520, 1030] };
    let n = std::sync::atomic::AtomicU64::new(0);
    c.par(w, reps.len() as u64, |i, acc| {
        let [before, l, core, r, behind] = &reps[i as usize];
        for &k in sizes {
            if (l.len() + r.len()) * k > 20_000 {
                continue;
            }
            let many = |v: &[u16], k: usize| v.repeat(k);
            let mut texts = vec![[&before[..], &many(l, k), core, &many(r, k), behind].concat()];
            if asp != Aspect::Structure {
                texts.push([&before[..], &many(l, k), core, &many(r, k / 2), behind].concat());
                texts.push([&before[..], &many(l, k), core, &many(r, k)].concat());
                texts.push([&before[..], &many(l, k), core, core, &many(r, k), behind].concat());
                texts.push([&before[..], &many(l, k / 2), core, &many(l, k / 2), core, &many(r, k), behind].concat());
            }
            for t in texts {
                if c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                    return;
                }
                n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                c.judge(w, acc, &cov.render(&t), asp);
            }
        }
    });
    let n = n.into_inner();
    c.put("space:repetitions", n);
    c.put("repetitions_of_the_grammar", reps.len() as u64);
    println!("  repetitions: {} ways, {n} texts, {:.1}s", reps.len(), t.elapsed().as_secs_f64());
}

pub fn rule_texts(w: &World) -> Vec<String> {
    let cov = w.cover();
    cov.rule_sentences().iter().map(|(_, v)| cov.render(v)).collect()
}

pub fn acceptance(c: &Ctx, w: &World) -> ModelCounts {
    crate::wb::bisimulate(c, w, Aspect::Accept);
    entry_cover(c, w, Aspect::Accept);
    error_cover(c, w, Aspect::Accept);
    growing(c, w, Aspect::Accept);
    c.sweep_list(w, "every character", &super::lexical::every_char(c.quick()), Aspect::Accept);
    // the recorded finding: PostgreSQL accepts these
    for text in ["SELECT U&'a' UESCAPE '!'", "SELECT U&\"a\" UESCAPE '!'"] {
        if !matches!(w.sut.parse(text), refpg::driver::Outcome::Tree(_)) {
            c.known(&format!("{text} is rejected (the UESCAPE clause is not supported)"));
        }
    }
    ModelCounts::Parser
}

pub fn structure(c: &Ctx, w: &World) -> ModelCounts {
    crate::wb::bisimulate(c, w, Aspect::Structure);
    entry_cover(c, w, Aspect::Structure);
    c.sweep_list(w, "rule pairs", &rule_texts(w), Aspect::Full);
    growing(c, w, Aspect::Structure);
    super::spell::spellings(c, w, !c.quick(), |_, text, acc| {
        c.judge(w, acc, text, Aspect::Structure);
    });
    ModelCounts::Parser
}

/// Ways to write the offending token, what stands in front of it and what follows it.
const OFFENDERS: &[&str] = &[
    "é", "漢字", "a1", "Select", "\"é q\"", "U&\"é\"", "'é'", "e'\\u00e9é'", "N'é'", "$$é$$", "$é$ ; $é$", "U&'é'", "''", "'a'\n 'é'",
    "'a' --é\n 'b'", "b'01'", "x'1F'", "x'1'\n'2'", "1", "0x1F", "99999999999", "1.5", ".5e3", "$1", "$12", "<=", "<>", "!=", "::", "..",
    ":=", "=>", "||", "@-", "@", "+", "-", "*", "/", "%", "^", "<", ">", "=", "(", ")", "[", "]", ",", ";", ".", ":", "{", "}", "NOT in",
    "not", "WITH time", "with/*é*/ordinality", "nulls --é\n first", "format json", "without time", "select", "FROM", "Current_Date",
];
const BEFORE: &[&str] = &[" ", "\n\n", "/*é*/", " /* a */ /* é */ ", " --é\n", "\t-- a\n--漢\n "];
const AFTER: &[&str] = &["", " ", " -- é", "/*é*/", " select", " é 'é' ;", " 'unterminated", " /* unterminated", "\n\0", " 1a"];
const ENDS: &[&str] = &[
    "", " ", "\n", "\r\n\t", " -- c", " -- é", "--é\n", "/*é*/", "/* c */ ", " /* a */ -- é", " -- a\n/* é */", "\n-- a\n\n-- é\n ",
    "/**//**/", " --", " --\n--", " /* /* é */ */", "\x0b",
];
const FIRST: &[&str] = &["", " ", "-- é\n", "/* é */", "\n\n/* a */--é\n"];

/// Behind every state: each offending token and each layout around it, up to one deviation from the plain
/// layout (two in the thorough tier; one more behind every 16th state), and each way to end a text.
pub fn error_layouts(c: &Ctx, w: &World) {
    let t = std::time::Instant::now();
    let cov = w.cover();
    let n = std::sync::atomic::AtomicU64::new(0);
    c.par(w, w.r.t.nstates as u64, |s, acc| {
        let Some(p) = cov.prefix(s as usize) else { return };
        let text = cov.render(&p);
        let mut k = 0;
        let mut go = |t: String, acc: &mut Acc| {
            k += 1;
            if !c.stop.load(std::sync::atomic::Ordering::Relaxed) {
                c.judge(w, acc, &t, Aspect::Error);
            }
        };
        let base = if p.is_empty() { "" } else { text.as_str() };
        for first in FIRST {
            for e in ENDS {
                go(format!("{first}{base}{e}"), acc);
            }
        }
        for (i, o) in OFFENDERS.iter().enumerate() {
            for (f, first) in FIRST.iter().enumerate() {
                for (b, before) in BEFORE.iter().enumerate() {
                    for (a, after) in AFTER.iter().enumerate() {
                        let dev = [i, f, b, a].iter().filter(|x| **x != 0).count();
                        if dev > if c.quick() { 1 } else { 2 } + usize::from(s % 16 == 0) {
                            continue;
                        }
                        go(format!("{first}{base}{before}{o}{after}"), acc);
                    }
                }
            }
        }
        n.fetch_add(k, std::sync::atomic::Ordering::Relaxed);
    });
    let n = n.into_inner();
    c.put("space:error layouts", n);
    println!("  error layouts: {n} texts, {:.1}s", t.elapsed().as_secs_f64());
}

pub fn error_location(c: &Ctx, w: &World) -> ModelCounts {
    error_layouts(c, w);
    growing(c, w, Aspect::Error);
    error_cover(c, w, Aspect::Error);
    // far into the text, and offending tokens of every size
    let far = super::tree::far_prefixes(c.quick());
    let mut texts = vec![];
    for f in &far {
        for t in ["SELECT 1 é é b", "SELECT", "(", ")", "SELECT 'é' 'x' /* é */", "DELETE FROM -- c", "SELECT * FROM WHERE"] {
            texts.push(format!("{f}{t}"));
        }
        texts.push(format!("SELECT 1 x y{f}"));
        texts.push(format!("SELECT 1 + {f}"));
        texts.push(format!("SELECT ( {f})) 1"));
    }
    let (top, unit) = (if c.quick() { 17 } else { 20 }, ["x", "é", "漢"]);
    for p in 0..=top {
        for n in [(1usize << p).saturating_sub(1), 1 << p, (1 << p) + 1] {
            for u in unit {
                let x = u.repeat(n);
                texts.push(format!("SELECT 1 a {x} b"));
                texts.push(format!("SELECT 1 a \"{x}\""));
                texts.push(format!("SELECT 1 a '{x}' ;"));
                texts.push(format!("SELECT 1 a $${x}$$ ;"));
                texts.push(format!("SELECT 1 a /*{x}*/ b"));
            }
            texts.push(format!("SELECT 1 a {}", "1".repeat(n)));
        }
    }
    c.sweep_list(w, "far and long offending tokens", &texts, Aspect::Error);
    c.sweep_list(w, "errors at every distance", &super::lexical::distances(c.quick()), Aspect::Error);
    c.sweep_list(w, "every character", &super::lexical::every_char(c.quick()), Aspect::Error);
    ModelCounts::Parser
}

//! Totality, build variants, front ends.
use super::grammar::rule_texts;
use crate::eng::*;
use refpg::driver::{Ev, Outcome};
use refpg::lexer::LexError;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

// ---------------------------------------------------------------- totality

pub const PUMPS: &[(&str, &str, &str, &str)] = &[
    // (before, repeated, middle, repeated after)
    ("SELECT ", "(", "1", ")"),
    ("SELECT ", "NOT ", "a", ""),
    ("SELECT ", "- ", "a", ""),
    ("SELECT ", "f(", "1", ")"),
    ("SELECT a", "[1", "", "]"),
    ("SELECT a", "[1]", "", ""),
    ("SELECT a", ".b", "", ""),
    ("SELECT ", "a + ", "b", ""),
    ("SELECT ", "a = b AND ", "b", ""),
    ("SELECT ", "a ~ ", "b", ""),
    ("SELECT ", "CASE WHEN ", "a", " THEN 1 END"),
    ("SELECT ", "ARRAY[", "1", "]"),
    ("SELECT 1", ", 1", "", ""),
    ("", "SELECT (", "SELECT 1", ")"),
    ("", "SELECT * FROM (", "SELECT 1", ") a"),
    ("", "(", "SELECT 1", ")"),
    ("SELECT 1", " UNION SELECT 1", "", ""),
    ("SELECT * FROM t", " JOIN t ON a", "", ""),
    ("SELECT * FROM ", "(t JOIN ", "t", " ON a)"),
    ("", "WITH x AS (", "SELECT 1", ") SELECT 1"),
    ("SELECT 1", ";SELECT 1", "", ""),
    ("", ";", "", ""),
    ("SELECT a IN (1", ", 1", ")", ""),
    ("INSERT INTO t VALUES (1)", ", (1)", "", ""),
    ("SELECT a::int", "::int", "", ""),
    ("SELECT a::int", "[]", "", ""),
    ("SELECT 'a'", "\n'b'", "", ""),
    ("SELECT /*", "/*", " ", "*/"),
    ("SELECT a", " IS NULL", "", ""),
    ("EXPLAIN ", "EXPLAIN ", "SELECT 1", ""),
    ("SELECT a", " COLLATE \"C\"", "", ""),
    ("CREATE TABLE t (a int", ", a int", ")", ""),
    ("SELECT a BETWEEN ", "b BETWEEN 1 AND 2 AND ", "c AND d", ""),
    ("SELECT (a", ", (a", "", ")"),
    ("CREATE FUNCTION f() RETURNS int BEGIN ATOMIC SELECT 1;", "SELECT 1;", "END", ""),
    ("SELECT a FROM t WHERE ", "EXISTS (SELECT 1 WHERE ", "a", ")"),
];

fn pump(p: &(&str, &str, &str, &str), n: usize) -> String {
    format!("{}{}{}{}", p.0, p.1.repeat(n), p.2, p.3.repeat(n))
}

pub fn totality(c: &Ctx, w: &World) -> ModelCounts {
    let go = |text: &str, acc: &mut Acc| -> bool {
        acc.evals += 1;
        let o = w.sut.parse(text);
        match o {
            Outcome::Panic(m) => {
                c.violation(text, "a tree or an error".into(), format!("panic: {m}"), "");
                false
            }
            Outcome::Tree(e) => {
                acc.sigs.insert(h64(&e));
                true
            }
            Outcome::Syntax(a, b) => {
                if a > b || b > text.len() || !text.is_char_boundary(a) || !text.is_char_boundary(b) {
                    c.violation(text, "an error range inside the text".into(), format!("{a}..{b}"), "");
                }
                acc.sigs.insert(h64(&(a, b, text.len())));
                false
            }
            Outcome::Lex(LexError::Report(m, _, p)) => {
                if p > text.len() {
                    c.violation(text, "a position inside the text".into(), format!("{p}"), "");
                }
                acc.sigs.insert(h64(&(m, p)));
                false
            }
            Outcome::Lex(LexError::Msg(m)) => {
                acc.sigs.insert(h64(&m));
                false
            }
            Outcome::Odd(_) => true,
        }
    };
    // every text of up to 3 (thorough: 4 over fewer) characters
    let mut chars: Vec<String> = (0u32..=0x7f).map(|c| char::from_u32(c).unwrap().to_string()).collect();
    for u in ["\u{80}", "é", "\u{7ff}", "\u{800}", "漢", "\u{ffff}", "😀", "\u{10ffff}"] {
        chars.push(u.into());
    }
    let t = Instant::now();
    let sp = Strs { ctxs: vec![("".into(), "".into())], alpha: chars.clone(), min: 0, max: 3 };
    c.par(w, sp.len(), |i, acc| {
        go(&sp.get(i), acc);
    });
    c.put("space:all texts of up to 3 characters", sp.len());
    let sp = Strs {
        ctxs: ["SELECT ", "SELECT '", "SELECT e'", "SELECT e'\\", "SELECT \"", "SELECT U&'", "SELECT $$", "SELECT $a$", "SELECT $", "SELECT /*", "SELECT 1", "SELECT 0x", "SELECT 1e", "SELECT e'\\u00", "SELECT e'\\uD800", "SELECT b'", "SELECT -- "]
            .iter()
            .flat_map(|p| [(p.to_string(), "".to_string()), (p.to_string(), "'".to_string())])
            .collect(),
        alpha: chars.clone(),
        min: 0,
        max: 2,
    };
    c.par(w, sp.len(), |i, acc| {
        go(&sp.get(i), acc);
    });
    c.put("space:two characters behind every construct", sp.len());
    let one = super::lexical::every_char(c.quick());
    c.par(w, one.len() as u64, |i, acc| {
        go(&one[i as usize], acc);
    });
    c.put("space:every character", one.len() as u64);
    println!("  short texts {:.1}s", t.elapsed().as_secs_f64());
    let specials = ["'", "\"", "\\", "$", "/*", "*/", "--", "\n", "e'", "U&'", "0x", "1", "a", "é", "😀", "\0", "(", "{", ".", ";", "+", "u"];
    let sp = Strs::new(&[("", ""), ("SELECT ", "")], &specials, 4, if c.quick() { 4 } else { 5 });
    c.par(w, sp.len(), |i, acc| {
        go(&sp.get(i), acc);
    });
    c.put("space:special pieces", sp.len());
    println!("  special pieces {:.1}s", t.elapsed().as_secs_f64());
    // damage to every sentence: cut at every byte, every character replaced or preceded by something else
    let mut base = rule_texts(w);
    c.trace(w, &base);
    base.sort_by_key(|t| (t.len(), t.clone()));
    if c.quick() {
        // one sentence per grammar rule
        let cov = w.cover();
        let mut seen = std::collections::HashSet::new();
        let mut v: Vec<(usize, Vec<u16>)> = cov.rule_sentences();
        v.sort_by_key(|p| p.1.len());
        base = v.iter().filter(|p| seen.insert(p.0)).map(|p| cov.render(&p.1)).collect();
    }
    let dmg = ["'", "\"", "\\", "é", "$", "\0", "/*", "(", "{", "0", "\n", ""];
    c.par(w, base.len() as u64, |i, acc| {
        let s = &base[i as usize];
        for k in 0..=s.len() {
            go(&s[..k], acc);
            go(&s[k..], acc);
            for d in dmg {
                if k < s.len() {
                    go(&format!("{}{}{}", &s[..k], d, &s[k + 1..]), acc);
                }
                if d == "'" || d == "é" || d == "\\" {
                    go(&format!("{}{}{}", &s[..k], d, &s[k..]), acc);
                }
            }
        }
    });
    c.put("space:damaged sentences", base.len() as u64);
    println!("  damage {:.1}s", t.elapsed().as_secs_f64());
    // size: pumped constructs up to depth 3000 (thorough: 10000), whole and cut
    let mut texts = vec![];
    let sizes: &[usize] = if c.quick() { &[1, 2, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 3000] } else { &[1, 2, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 3000, 10000] };
    for p in PUMPS {
        for n in sizes {
            let s = pump(p, *n);
            texts.push(s.clone());
            texts.push(s[..s.len() - 1].to_string());
            texts.push(format!("{}{}", p.0, p.1.repeat(*n)));
            texts.push(format!("{s} {{"));
        }
    }
    c.par(w, texts.len() as u64, |i, acc| {
        go(&texts[i as usize], acc);
    });
    c.put("space:pumped texts", texts.len() as u64);
    println!("  pumped {:.1}s", t.elapsed().as_secs_f64());
    // long texts: the time must not explode (60 s for a megabyte; they take about a second each)
    let flat: &[(&str, &str, &str)] = &[
        ("", ";", ""),
        ("", "SELECT 1;", ""),
        ("", "SELECT 1;\n-- c\n", ""),
        ("SELECT 1", ", 1", ""),
        ("SELECT 1", "/*a*/", ""),
        ("SELECT 1", " /*é*/", ", 2"),
        ("SELECT 1", "--a\n", ", 2"),
        ("SELECT 1", " ", ", 2"),
        ("SELECT 1", "\n", ", 2"),
        ("SELECT '", "a", "'"),
        ("SELECT '", "é", "'"),
        ("SELECT '", "''", "'"),
        ("SELECT 'a'", "\n'b'", ""),
        ("SELECT e'", "\\n", "'"),
        ("SELECT e'", "\\u0041", "'"),
        ("SELECT e'", "\\uD83D\\uDE00", "'"),
        ("SELECT \"", "é", "\""),
        ("SELECT \"", "\"\"", "\""),
        ("SELECT \"a\"", ", \"b\"", ""),
        ("SELECT $$", "a", "$$"),
        ("SELECT $a$", "$b", "$a$"),
        ("SELECT $a$", "$b$", "$a$"),
        ("SELECT ", "a", ""),
        ("SELECT ", "é", ""),
        ("SELECT ", "1", ""),
        ("SELECT 0x", "f", ""),
        ("SELECT 0", "_1", ""),
        ("SELECT ", "a + ", "b"),
        ("SELECT a", "::int", ""),
        ("SELECT a", ".b", ""),
        ("SELECT 1", " UNION SELECT 1", ""),
        ("SELECT a IN (1", ", é", ")"),
        ("INSERT INTO t VALUES (1)", ", (1)", ""),
        ("SELECT * FROM t", " JOIN t ON a", ""),
        ("SELECT a WHERE a ", "not /*c*/ ", "in (1)"),
        ("SELECT a", " with time", ""),
        ("SELECT 'open", "a\n", ""),
        ("SELECT /* open", " é\n", ""),
        ("SELECT (", "1 ", ")"),
    ];
    let big: Vec<String> =
        flat.iter().flat_map(|(a, r, z)| [30_000, if c.quick() { 1_000_000 } else { 4_000_000 }].map(|n| format!("{a}{}{z}", r.repeat(n / r.len())))).collect();
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        let (next, big, go) = (&next, &big, &go);
        for _ in 0..c.threads {
            let run = move || {
                let mut acc = Acc::new(w);
                while let Some(t) = big.get(next.fetch_add(1, Ordering::Relaxed) as usize) {
                    go(t, &mut acc);
                }
                c.merge(acc);
            };
            std::thread::Builder::new().stack_size(4 << 30).spawn_scoped(s, run).unwrap();
        }
    });
    c.put("space:long texts", big.len() as u64);
    println!("  long texts {:.1}s", t.elapsed().as_secs_f64());
    // on an ordinary 8 MiB stack, in a process of its own: nesting up to 1000 levels
    for (k, p) in PUMPS.iter().enumerate() {
        for n in [100usize, 1000] {
            let ok = child(k, n, 8);
            c.evals.fetch_add(1, Ordering::Relaxed);
            if !ok {
                c.violation(&pump(p, n), "an answer on an 8 MiB stack".into(), "the process died".into(), "");
            }
        }
    }
    // the recorded finding: very deep trees exhaust the stack
    if !child(12, 100_000, 2) {
        c.known("stack exhausted (process aborts) by a 100000-item select list on a 2 MiB thread stack");
    }
    ModelCounts::Parser
}

/// `bb deep K N MB` in a process of its own
fn child(k: usize, n: usize, mb: usize) -> bool {
    std::process::Command::new(std::env::current_exe().unwrap())
        .args(["deep", &k.to_string(), &n.to_string(), &mb.to_string()])
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status()
        .map(|s| s.success())
        .unwrap_or(false)
}

pub fn deep(args: &[String]) -> i32 {
    let k: usize = args[0].parse().unwrap();
    let n: usize = args[1].parse().unwrap();
    let mb: usize = args[2].parse().unwrap();
    let text = pump(&PUMPS[k], n);
    std::thread::Builder::new()
        .stack_size(mb << 20)
        .spawn(move || {
            let r = postgresql_cst_parser::parse(&text);
            i32::from(matches!(r, Ok(t) if usize::from(t.text_range().end()) != text.len()))
        })
        .unwrap()
        .join()
        .unwrap_or(1)
}

// ---------------------------------------------------------------- build variants

/// Whatever variant of the crate this binary is built with, against the reference for that variant.
pub fn variant(c: &Ctx, w: &World) -> ModelCounts {
    let base = rule_texts(w);
    c.sweep_list(w, "rule pairs", &base, Aspect::Full);
    super::spell::spellings(c, w, false, |_, text, acc| {
        c.judge(w, acc, text, Aspect::Full);
    });
    c.par(w, base.len() as u64, |i, acc| {
        let text = &base[i as usize];
        let Ok((t, _)) = w.r.scan(text) else { return };
        let t: Vec<&str> = t.iter().map(|t| &text[t.start..t.end]).collect();
        for g in super::tree::GAPS.iter().take(if c.quick() { 5 } else { 10 }) {
            for k in 0..=t.len() {
                let mut s = t[..k].join(" ");
                s.push(' ');
                s.push_str(g);
                s.push(' ');
                s.push_str(&t[k..].join(" "));
                c.judge(w, acc, &s, Aspect::Full);
            }
        }
    });
    let sp = Strs::new(&[("", ""), ("SELECT 1", ""), ("", "SELECT 1")], &[" ", "\n", "/*c*/", "--x\n", ";", "--e"], 0, 5);
    c.sweep(w, "trivia and empty statements", &sp, Aspect::Full);
    if w.keep_empty {
        // the two variants differ by exactly the empty nodes: drop them and compare with the
        // reference for the other variant
        c.par(w, base.len() as u64, |i, acc| {
            let text = &base[i as usize];
            acc.evals += 1;
            let want = w.r.parse(text, false);
            let got = w.sut.parse(text);
            let ok = match (&want, &got) {
                (Outcome::Tree(a), Outcome::Tree(b)) => skeleton(w, a) == skeleton(w, &drop_empty(b)),
                (a, b) => a == b,
            };
            if !ok {
                c.violation(text, show(w, &want), show(w, &got), "after removing the empty nodes");
            }
        });
    }
    ModelCounts::Parser
}

pub fn drop_empty(evs: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = vec![];
    let mut stack: Vec<(usize, bool)> = vec![];
    for e in evs {
        match *e {
            Ev::Open(..) => {
                stack.push((out.len(), false));
                out.push(*e);
            }
            Ev::Tok(..) => {
                for s in stack.iter_mut() {
                    s.1 = true;
                }
                out.push(*e);
            }
            Ev::Close => {
                let (at, full) = stack.pop().unwrap();
                if full || stack.is_empty() {
                    out.push(*e);
                } else {
                    out.truncate(at);
                }
            }
        }
    }
    out
}

// ---------------------------------------------------------------- front ends

fn dump(w: &World, text: &str, evs: &[Ev]) -> String {
    let mut name: std::collections::HashMap<u16, &str> = Default::default();
    for (i, k) in w.sut.kinds.iter().enumerate() {
        name.insert(*k, &w.sut.kind_names[i]);
    }
    let mut s = String::new();
    let mut depth = 0;
    for e in evs {
        match *e {
            Ev::Open(k, a, b) => {
                s += &format!("{}{}@{a}..{b}\n", "  ".repeat(depth), name[&k]);
                depth += 1;
            }
            Ev::Close => depth -= 1,
            Ev::Tok(k, a, b) => {
                let t = &text[a as usize..b as usize];
                let shown = if t.len() < 25 {
                    format!("{t:?}")
                } else {
                    let cut = (21..25).find(|i| t.is_char_boundary(*i)).unwrap();
                    format!("{:?}", format!("{} ...", &t[..cut]))
                };
                s += &format!("{}{}@{a}..{b} {shown}\n", "  ".repeat(depth), name[&k]);
            }
        }
    }
    s
}

fn front_matches(w: &World, text: &str, got: &str) -> Result<(), String> {
    match w.r.parse(text, w.keep_empty) {
        Outcome::Tree(e) => {
            let d = dump(w, text, &e);
            if d == got {
                Ok(())
            } else {
                Err(d)
            }
        }
        Outcome::Syntax(a, b) => {
            let ok = got.contains("ParseError") && got.contains(&format!("start_byte_pos: {a},")) && got.contains(&format!("end_byte_pos: {b}"));
            if ok {
                Ok(())
            } else {
                Err(format!("a ParseError at {a}..{b}"))
            }
        }
        Outcome::Lex(LexError::Msg(m)) => {
            if got.contains("ScanError") && got.contains(&format!("{m:?}")) {
                Ok(())
            } else {
                Err(format!("a ScanError {m:?}"))
            }
        }
        Outcome::Lex(LexError::Report(m, d, p)) => {
            if got.contains("ScanReport") && got.contains(&format!("{m:?}")) && got.contains(&format!("{d:?}")) && got.contains(&format!("position_in_bytes: {p}")) {
                Ok(())
            } else {
                Err(format!("a ScanReport {m:?} {d:?} {p}"))
            }
        }
        _ => Ok(()),
    }
}

#[cfg(feature = "web")]
pub fn front_ends(c: &Ctx, w: &World) -> ModelCounts {
    let web = |text: &str, acc: &mut Acc| {
        acc.evals += 1;
        let got = std::panic::catch_unwind(|| refpg::watch::guard(text, || postgresql_cst_parser_wasm::parse_sql(text))).unwrap_or_else(|_| "panic".into());
        acc.sigs.insert(h64(&got));
        let accepted = matches!(w.r.parse(text, w.keep_empty), Outcome::Tree(_));
        if uescape(w, text) {
            return;
        }
        match front_matches(w, text, &got) {
            Ok(()) if accepted != got.starts_with("Error: ") => {}
            Ok(()) => c.violation(text, "\"Error: \" exactly for rejected texts".into(), got, "web binding"),
            Err(e) => c.violation(text, e, got, "web binding"),
        }
    };
    let base = rule_texts(w);
    c.trace(w, &base);
    c.par(w, base.len() as u64, |i, acc| web(&base[i as usize], acc));
    super::spell::spellings(c, w, false, |_, text, acc| web(text, acc));
    let sp = Strs::new(
        &[("", ""), ("SELECT ", "")],
        &super::lexical::FRAGMENTS.to_vec(),
        0,
        if c.quick() { 2 } else { 3 },
    );
    c.par(w, sp.len(), |i, acc| web(&sp.get(i), acc));
    let mut texts = vec![];
    for n in 0..40 {
        for ch in ["a", "é", "漢", "😀"] {
            texts.push(format!("SELECT '{}'", ch.repeat(n)));
            texts.push(format!("SELECT 'x{}'", ch.repeat(n)));
            texts.push(format!("SELECT 1 /*{}*/", ch.repeat(n)));
        }
    }
    c.par(w, texts.len() as u64, |i, acc| web(&texts[i as usize], acc));
    c.put("space:web sentences", base.len() as u64);
    let chars = super::lexical::every_char(c.quick());
    let step = if c.quick() { 7 } else { 1 };
    c.par(w, chars.len() as u64 / step, |i, acc| web(&chars[(i * step) as usize], acc));
    c.put("space:web every character", chars.len() as u64 / step);
    // the command line tool: text on standard input, tree on standard output or error on standard error
    if let Ok(bin) = std::env::var("VERIF_CLI") {
        let mut pool: Vec<String> = super::lexical::FRAGMENTS.iter().map(|s| s.to_string()).collect();
        for f in super::lexical::FRAGMENTS {
            pool.push(format!("SELECT {f}"));
            pool.push(format!("SELECT 1 AS a {f}\n"));
        }
        let step = if c.quick() { 40 } else { 8 };
        pool.extend(base.iter().step_by(step).cloned());
        pool.extend(texts.iter().step_by(5).cloned());
        for p in PUMPS {
            pool.push(pump(p, 50));
        }
        for ch in ["\u{feff}", "\r\n", "\r", "\n", "\n\n", "\0", "\u{85}", "\u{2028}", "\u{a0}", "\t", "\x1a", "\x04", "\x1b[0m", "\u{202e}", "\u{fffd}", "\x7f", "\u{7f}\u{80}"] {
            for (a, b) in [("", "SELECT 1"), ("SELECT 1", ""), ("SELECT '", "'"), ("SELECT \"", "\""), ("/*", "*/"), ("--", "\nSELECT a b c"), ("SELECT 1", ", 2"), ("", ""), ("SELECT 1 a ", " b"), ("--", "")] {
                pool.push(format!("{a}{ch}{b}"));
            }
        }
        // through pipes and buffers of every size
        for f in super::tree::far_prefixes(c.quick()) {
            if f.starts_with([' ', '-', 'S']) {
                pool.push(format!("{f}SELECT a"));
                pool.push(format!("{f}SELECT a b c"));
                pool.push(format!("SELECT 'a' {f}"));
            }
        }
        for n in [1usize << 18, 1 << 20, (1 << 22) + 1] {
            pool.push(format!("{}SELECT a", " ".repeat(n)));
            pool.push(format!("SELECT 'é{}'", "漢".repeat(n / 3)));
            pool.push(format!("SELECT 1 a b{}", " ".repeat(n)));
        }
        c.par(w, pool.len() as u64, |i, acc| {
            use std::io::Write;
            let text = &pool[i as usize];
            acc.evals += 1;
            let mut ch = std::process::Command::new(&bin)
                .stdin(std::process::Stdio::piped())
                .stdout(std::process::Stdio::piped())
                .stderr(std::process::Stdio::piped())
                .spawn()
                .expect("start the command line tool");
            let mut stdin = ch.stdin.take().unwrap();
            let _ = stdin.write_all(text.as_bytes());
            drop(stdin);
            let out = ch.wait_with_output().unwrap();
            let (o, e) = (String::from_utf8_lossy(&out.stdout).into_owned(), String::from_utf8_lossy(&out.stderr).into_owned());
            let accepted = matches!(w.r.parse(text, w.keep_empty), Outcome::Tree(_));
            let got = if accepted { o.strip_suffix('\n').unwrap_or(&o).to_string() } else { e.clone() };
            let res = front_matches(w, text, &got);
            if out.status.code() != Some(0) || res.is_err() || (accepted && !e.is_empty()) || (!accepted && !o.is_empty()) {
                c.violation(
                    text,
                    res.err().unwrap_or_else(|| "the same outcome on the right stream, exit status 0".into()),
                    format!("{:?}\nstdout: {o}\nstderr: {e}", out.status.code()),
                    "command line tool",
                );
            }
        });
        c.put("space:command line runs", pool.len() as u64);
    } else {
        c.note("the command line tool could not be built; only the web binding was checked");
    }
    ModelCounts::Parser
}
#[cfg(not(feature = "web"))]
pub fn front_ends(_: &Ctx, _: &World) -> ModelCounts {
    let _ = front_matches as fn(&World, &str, &str) -> Result<(), String>;
    panic!("built without the web binding")
}

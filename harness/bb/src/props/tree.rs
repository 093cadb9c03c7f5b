//! Properties of the tree: losslessness, trivia, composition, history independence, web binding.
use super::grammar::rule_texts;
use super::lexical::{FRAGMENTS, WORD_CTX};
use crate::eng::*;
use crate::sut::error_outcome;
use cstree::traversal::WalkEvent;
use postgresql_cst_parser as pg;
use refpg::driver::{Ev, Outcome};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- losslessness

/// What every tree must satisfy, whatever the grammar says. None: rejected or fine.
pub fn lossless(w: &World, text: &str) -> Result<bool, String> {
    let tree = match catch_unwind(AssertUnwindSafe(|| refpg::watch::guard(text, || pg::parse(text)))) {
        Err(_) => return Err("panic".into()),
        Ok(Err(_)) => return Ok(false),
        Ok(Ok(t)) => t,
    };
    catch_unwind(AssertUnwindSafe(|| lossless_tree(w, text, &tree))).unwrap_or(Err("walking the tree panics".into()))?;
    Ok(true)
}

fn lossless_tree(w: &World, text: &str, tree: &pg::ResolvedNode) -> Result<(), String> {
    use pg::NodeOrToken as N;
    let resolver = &**tree.resolver();
    if tree.text().to_string() != text {
        return Err(format!("the text of the tree is {:?}", tree.text().to_string()));
    }
    if usize::from(tree.text_range().start()) != 0 || usize::from(tree.text_range().end()) != text.len() {
        return Err(format!("the root has range {:?}", tree.text_range()));
    }
    let mut pos = 0usize;
    let mut open: Vec<(usize, usize)> = vec![];
    for e in tree.preorder_with_tokens() {
        match e {
            WalkEvent::Enter(N::Node(n)) => {
                let (a, b): (usize, usize) = (n.text_range().start().into(), n.text_range().end().into());
                if a != pos {
                    return Err(format!("node {:?} starts at {a}, not at {pos}", n.kind()));
                }
                if let Some(&(pa, pb)) = open.last() {
                    if a < pa || b > pb {
                        return Err(format!("node {:?} {a}..{b} leaves its parent {pa}..{pb}", n.kind()));
                    }
                }
                open.push((a, b));
            }
            WalkEvent::Leave(N::Node(n)) => {
                let (_, b) = open.pop().unwrap();
                if b != pos {
                    return Err(format!("node {:?} ends at {b}, its last token at {pos}", n.kind()));
                }
            }
            WalkEvent::Enter(N::Token(t)) => {
                let txt = t.resolve_text(resolver);
                let (a, b): (usize, usize) = (t.text_range().start().into(), t.text_range().end().into());
                if a != pos {
                    return Err(format!("token {:?} starts at {a}, not at {pos}", t.kind()));
                }
                if a == b {
                    return Err(format!("empty token {:?} at {a}", t.kind()));
                }
                if text.get(a..b) != Some(txt) {
                    return Err(format!("token {:?} {a}..{b} has text {:?}", t.kind(), txt));
                }
                let k = w.sut.map_kind(t.kind());
                let blank = txt.bytes().all(refpg::lexer::is_space);
                let edge = |b: u8| refpg::lexer::is_space(b);
                if (k == w.r.ws) != blank {
                    return Err(format!("token {:?} has text {:?}", t.kind(), txt));
                }
                if k == w.r.c_comment && !(txt.starts_with("/*") && txt.ends_with("*/") && b - a >= 4) {
                    return Err(format!("block comment {:?}", txt));
                }
                if k == w.r.sql_comment && (!txt.starts_with("--") || txt.contains(['\n', '\r'])) {
                    return Err(format!("line comment {:?}", txt));
                }
                if k != w.r.ws && edge(txt.as_bytes()[0]) {
                    return Err(format!("token {:?} {:?} begins with white space", t.kind(), txt));
                }
                if !w.is_trivia(k) && k != w.r.sql_comment && edge(*txt.as_bytes().last().unwrap()) {
                    return Err(format!("token {:?} {:?} ends with white space", t.kind(), txt));
                }
                pos = b;
            }
            WalkEvent::Leave(N::Token(_)) => {}
        }
    }
    if pos != text.len() {
        return Err(format!("the tokens cover {pos} of {} bytes", text.len()));
    }
    Ok(())
}

pub const GAPS: &[&str] = &[
    " ",
    "\n",
    "\t \r\n\x0c\x0b",
    "/*c*/",
    " /* é */ ",
    "--x\n",
    " --\n  ",
    " /*a*//*b*/",
    "/* /* n */ */\n--漢\n",
    "  /**/  --y\r /*z*/ ",
];

/// a sentence as its tokens
fn toks_of(w: &World, text: &str) -> Vec<String> {
    let (t, _) = w.r.scan(text).unwrap();
    t.iter().map(|t| text[t.start..t.end].to_string()).collect()
}

/// May the separator be inserted between two tokens without merging quoted constants?
fn separable(a: &str, b: &str, gap: &str) -> bool {
    !(a.ends_with('\'') && b.starts_with('\'') && gap.contains(['\n', '\r']))
}

pub fn lossless_prop(c: &Ctx, w: &World) -> ModelCounts {
    let accepted = AtomicU64::new(0);
    let go = |text: &str, acc: &mut Acc| {
        acc.evals += 1;
        match lossless(w, text) {
            Ok(true) => {
                accepted.fetch_add(1, Ordering::Relaxed);
                acc.sigs.insert(h64(&text));
            }
            Ok(false) => {}
            Err(e) => c.violation(text, "a tree whose tokens spell the input".into(), e, ""),
        }
    };
    let base = rule_texts(w);
    c.trace(w, &base);
    // every sentence, with every separator in every single gap, at both ends and everywhere
    c.par(w, base.len() as u64, |i, acc| {
        let t = toks_of(w, &base[i as usize]);
        go(&base[i as usize], acc);
        for g in GAPS {
            let mut all = String::new();
            for x in &t {
                all.push_str(g);
                all.push_str(x);
            }
            all.push_str(g);
            go(&all, acc);
            for k in [0, t.len() / 2, t.len()] {
                go(&with_gap(&t, k, g), acc);
            }
        }
    });
    c.put("space:sentences", base.len() as u64);
    // every token of every sentence in every spelling
    super::spell::spellings(c, w, !c.quick(), |plain, text, acc| {
        acc.evals += 1;
        match lossless(w, text) {
            Ok(true) => {
                accepted.fetch_add(1, Ordering::Relaxed);
                acc.sigs.insert(h64(&text));
            }
            // the plain spelling is accepted, or the grammar is at fault
            Ok(false) if matches!(lossless(w, plain), Ok(true)) && !uescape(w, text) => {
                c.violation(text, format!("a tree that spells the input, as for {plain:?}"), show(w, &w.sut.parse(text)), "")
            }
            Ok(false) => {}
            Err(e) => c.violation(text, "a tree whose tokens spell the input".into(), e, ""),
        }
    });
    // all short texts over mixed alphabets
    let alpha = [
        "SELECT", " ", "1", "a", "'x'", "é", "\n", "--c\n", "/*c*/", "--", ";", ",", "\"漢\"", "U&'d'", "U&\"e\"", "$$f$$", "$1", "e'\\u0041'",
        "1.5", "+", "::", "(", ")", "\t", "N'n'", "'y'\n'z'", "u&", "0x1F", "b'1'",
    ];
    let n = if c.quick() { 3 } else { 4 };
    for (name, ctx) in [("raw", ("", "")), ("select list", ("SELECT 1", "")), ("after alias", ("SELECT 1 AS ", " "))] {
        let sp = Strs::new(&[ctx], &alpha, 0, if name == "raw" { n + 1 } else { n });
        if name == "raw" && c.quick() {
            let sp = Strs::new(&[ctx], &alpha, 0, 4);
            c.par(w, sp.len(), |i, acc| go(&sp.get(i), acc));
            c.put("space:raw", sp.len());
            continue;
        }
        c.par(w, sp.len().min(25_000_000), |i, acc| go(&sp.get(i), acc));
        c.put(&format!("space:{name}"), sp.len().min(25_000_000));
    }
    // every token kind next to every other without a separator, then again with each separator
    let atoms = [
        "a", "\"q\"", "U&\"u\"", "'s'", "e's'", "U&'s'", "n's'", "b'1'", "x'1'", "$$d$$", "$q$d$q$", "1", "1.5", ".5", "1.", "0x1", "$1", "~", "+", "*",
        "::", ":=", "=>", "<=", "<>", "..", ".", ",", ";", "(", ")", "[", "]", "=", "/*c*/", "--c\n", "select", "é", "😀",
    ];
    let mut texts = vec![];
    for a in atoms {
        for b in atoms {
            for g in [""].iter().chain(GAPS) {
                for (p, s) in [("SELECT ", ""), ("SELECT 1 ", " 2"), ("SELECT f(", ")"), ("", "")] {
                    texts.push(format!("{p}{a}{g}{b}{s}"));
                }
            }
        }
    }
    c.par(w, texts.len() as u64, |i, acc| go(&texts[i as usize], acc));
    c.put("space:token pairs", texts.len() as u64);
    // sizes
    let mut texts = vec![];
    for n in (0usize..=140).chain([199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4096, 65535, 65536, 65537, 200_000]) {
        let blank = " ".repeat(n);
        texts.push(format!("SELECT{blank} 1"));
        texts.push(format!("SELECT 1{blank}"));
        texts.push(format!("{blank}SELECT 1"));
        texts.push(format!("SELECT 1 /*{}*/", "é".repeat(n)));
        texts.push(format!("SELECT 1 --{}", "漢".repeat(n)));
        texts.push(format!("SELECT '{}'", "😀".repeat(n)));
        texts.push(format!("SELECT {} FROM t", "é".repeat(n.max(1))));
        texts.push(";".repeat(n.min(5000)));
        texts.push(format!("SELECT 1{}", ",1".repeat(n.min(3000))));
    }
    let far = far_prefixes(c.quick());
    for f in &far {
        for t in ["SELECT 'é', \"漢\" , $1 -- ü", "SELECT U&'d' /* é */"] {
            texts.push(format!("{f}{t}"));
            texts.push(format!("{t}\n;{f}"));
        }
    }
    c.par(w, texts.len() as u64, |i, acc| go(&texts[i as usize], acc));
    c.put("space:sizes", texts.len() as u64);
    let chars = super::lexical::every_char(c.quick());
    c.par(w, chars.len() as u64, |i, acc| go(&chars[i as usize], acc));
    c.put("space:every character", chars.len() as u64);
    c.put("accepted", accepted.into_inner());
    ModelCounts::Parser
}

fn with_gap(t: &[String], k: usize, g: &str) -> String {
    let mut s = String::new();
    for (i, x) in t.iter().enumerate() {
        if i == k {
            s.push_str(g);
            if i > 0 && !g.starts_with([' ', '\n', '\t']) && needs_space(&t[i - 1], g) {
                // keep an operator from running into the comment
                s.insert(s.len() - g.len(), ' ');
            }
        } else if i > 0 {
            s.push(' ');
        }
        s.push_str(x);
    }
    if k >= t.len() {
        if t.last().is_some_and(|l| needs_space(l, g)) {
            s.push(' ');
        }
        s.push_str(g);
    }
    s
}

fn needs_space(prev: &str, gap: &str) -> bool {
    let _ = gap;
    // an operator before a comment would be scanned together with it
    prev.bytes().last().is_some_and(|b| refpg::lexer::OPCHARS.contains(&b))
}

/// statements for long trivia: every look-ahead pair, and the usual constructs
pub const LONG_GAP_STATEMENTS: &[&str] = &[
    "SELECT a NOT BETWEEN 1 AND 2",
    "SELECT a NOT IN ( 1 )",
    "SELECT a NOT LIKE b ESCAPE 'c'",
    "SELECT a NOT ILIKE b",
    "SELECT a NOT SIMILAR TO b",
    "SELECT 1 FROM t ORDER BY a NULLS FIRST , b NULLS LAST",
    "SELECT a :: time WITH TIME ZONE , b :: timestamp WITHOUT TIME ZONE",
    "SELECT * FROM f ( ) WITH ORDINALITY",
    "SELECT json_object ( 'a' : b FORMAT JSON )",
    "SELECT U&'x' UESCAPE '!' , U&\"y\" UESCAPE '!'",
    "SELECT 'a'",
    "SELECT e'a' || b'1' , - 1.5e3 :: int AS \"x\" FROM ( SELECT ) q ; ; DELETE FROM t",
    "CREATE TABLE t ( a int NOT NULL , b text ) WITH ( fillfactor = 1 )",
    "INSERT INTO t VALUES ( $1 , $x$ $x$ )",
    "NOT NULL WITH NULLS",
];

/// long stretches of comments and white space: (what, text)
pub fn long_gaps(quick: bool) -> Vec<String> {
    let units = [" ", "\n", "\t\r\n", "/*c*/", "/**/ ", " --x\n", "--\n", "/*a*/ /*b*/\n--c\n", "/* /* é */ */"];
    let mut counts: Vec<usize> = (1..=20).collect();
    counts.extend([31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 258, 300]);
    counts.extend([1000, 1025, 4097]);
    if !quick {
        counts.extend([511, 512, 513, 1023, 1024, 4096, 9000]);
    }
    let mut v: Vec<String> = vec![];
    for u in units {
        for &n in &counts {
            v.push(u.repeat(n));
        }
    }
    let mut lens: Vec<usize> = vec![31, 62, 63, 64, 124, 127, 128, 250, 251, 252, 253, 254, 255, 256, 257, 511, 512, 1020, 1024, 2048, 4096, 8192];
    if !quick {
        lens.extend([16384, 32767, 65530, 65535, 65536, 70000]);
    }
    for n in lens {
        v.push(" ".repeat(n));
        v.push(format!("/*{}*/", "x".repeat(n)));
        v.push(format!("/*{}*/", "\n* '".repeat(n / 4)));
        v.push(format!("--{}\n", "y".repeat(n)));
        v.push(format!("--{}\n", "'é\"".repeat(n / 4)));
    }
    for d in [2usize, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300] {
        v.push(format!("{}{}", "/*".repeat(d), "*/".repeat(d)));
        v.push(format!("{}c{}", "/* ".repeat(d), " */".repeat(d)));
    }
    v
}

/// texts in front of which nothing may change: `n` bytes (about) of blanks, comments or statements
pub fn far_prefixes(quick: bool) -> Vec<String> {
    let mut sizes: Vec<usize> = vec![100];
    let top = if quick { 17 } else { 20 };
    for p in 7..=top {
        sizes.extend([(1 << p) - 2, (1 << p) - 1, 1 << p, (1 << p) + 1]);
    }
    let mut v = vec![];
    for n in sizes {
        v.push(" ".repeat(n));
        v.push(format!("/*{}*/", "x".repeat(n - 4)));
        v.push(format!("--{}\n", "é".repeat(n / 2)));
        v.push("\n".repeat(n));
        v.push(format!("SELECT '{}';", "漢".repeat(n / 3)));
        if n <= 33000 {
            v.push("SELECT 1;\n".repeat(n / 10 + 1));
            v.push(format!("SELECT 1 AS \"{}\";", "q".repeat(n)));
        }
    }
    v
}

/// every statement with every long stretch at every gap
pub fn long_gap_texts(quick: bool) -> Vec<(usize, String)> {
    let gaps = long_gaps(quick);
    let mut out = vec![];
    for (si, st) in LONG_GAP_STATEMENTS.iter().enumerate() {
        let t: Vec<String> = st.split(' ').map(|x| x.to_string()).collect();
        for k in 0..=t.len() {
            for g in &gaps {
                let mut s = String::new();
                for (i, x) in t.iter().enumerate() {
                    if i > 0 {
                        s.push(' ');
                    }
                    if i == k {
                        s.push_str(g);
                        if !g.ends_with(char::is_whitespace) {
                            s.push(' ');
                        }
                    }
                    s.push_str(x);
                }
                if k == t.len() {
                    s.push(' ');
                    s.push_str(g);
                }
                out.push((si, s));
            }
        }
    }
    out
}

// ---------------------------------------------------------------- placement of trivia

pub fn trivia(c: &Ctx, w: &World) -> ModelCounts {
    let base = rule_texts(w);
    c.trace(w, &base);
    let pats: &[&str] = if c.quick() { &GAPS[..8] } else { GAPS };
    c.par(w, base.len() as u64, |i, acc| {
        let t = toks_of(w, &base[i as usize]);
        for k in 0..=t.len() {
            for g in pats {
                c.judge(w, acc, &with_gap(&t, k, g), Aspect::Full);
            }
        }
        let mut all = String::new();
        for (n, x) in t.iter().enumerate() {
            let g = GAPS[n % GAPS.len()];
            if n > 0 && needs_space(&t[n - 1], g) {
                all.push(' ');
            }
            all.push_str(g);
            all.push_str(x);
        }
        all.push_str(" /*end*/ ");
        c.judge(w, acc, &all, Aspect::Full);
    });
    c.put("space:sentences", base.len() as u64);
    // two gaps at a time on the shorter sentences
    let cov = w.cover();
    let mut short: Vec<Vec<String>> = base.iter().map(|b| toks_of(w, b)).collect();
    short.sort();
    let lim = if c.quick() { 4 } else { 7 };
    short.retain(|t| t.len() <= lim);
    let two = ["/*c*/", " --x\n", " /*a*/ /*b*/ ", "\n"];
    c.par(w, short.len() as u64, |i, acc| {
        let t = &short[i as usize];
        for k1 in 0..=t.len() {
            for k2 in k1 + 1..=t.len() {
                for g1 in two {
                    for g2 in two {
                        let mut s = String::new();
                        for (n, x) in t.iter().enumerate() {
                            let g = if n == k1 {
                                g1
                            } else if n == k2 {
                                g2
                            } else {
                                ""
                            };
                            if n > 0 {
                                s.push(' ');
                            }
                            s.push_str(g);
                            s.push_str(x);
                        }
                        if k2 == t.len() {
                            s.push(' ');
                            s.push_str(g2);
                        }
                        c.judge(w, acc, &s, Aspect::Full);
                    }
                }
            }
        }
    });
    c.put("space:two gaps, sentences", short.len() as u64);
    drop(cov);
    // texts that consist of nothing but trivia and empty statements
    let sp = Strs::new(&[("", ""), ("SELECT 1", ""), ("", "SELECT 1")], &[" ", "\n", "/*c*/", "--x\n", ";", "--e"], 0, if c.quick() { 5 } else { 6 });
    c.sweep(w, "trivia and empty statements", &sp, Aspect::Full);
    let long: Vec<String> = long_gap_texts(c.quick()).into_iter().map(|x| x.1).collect();
    c.sweep_list(w, "long stretches of trivia at each gap", &long, Aspect::Full);
    super::lexical::far(c, w, &["/*a*/ 1 /*b*/ FROM t -- c\n", "f(--c\n) , (/*d*/ 1 --e\n + 2) ; /*f*/ ;"], Aspect::Full);
    // trivia at every level of deep trees and in long lists
    let mut texts = vec![];
    for n in [2usize, 7, 8, 15, 16, 17, 31, 33, 63, 64, 65, 127, 129, 255, 256, 257, 300] {
        for (a, b) in [("/*a*/(", ")/*b*/"), ("--a\n( ", "\n) "), ("( /*a*/", " ) --b\n"), (" NOT /*a*/ /*b*/ ", ""), ("", " + /*b*/ 1 --c\n"), ("", "/*a*/, --b\n c"), ("", " UNION --a\n SELECT /*b*/ 1"), ("f(/*a*/", "/*b*/, 1) /*c*/")] {
            texts.push(format!("SELECT {}1{} -- end", a.repeat(n), b.repeat(n)));
        }
        texts.push(";/*a*/ ".repeat(n));
        texts.push("SELECT /*b*/ 1 ; --a\n".repeat(n));
    }
    c.sweep_list(w, "trivia in deep trees and long lists", &texts, Aspect::Full);
    ModelCounts::Parser
}

// ---------------------------------------------------------------- independence of trivia

pub fn invariance(c: &Ctx, w: &World) -> ModelCounts {
    let base = rule_texts(w);
    c.trace(w, &base);
    let class = |o: &Outcome| -> (u8, Vec<Ev>) {
        match o {
            Outcome::Tree(e) => (0, shape(w, e)),
            Outcome::Syntax(..) => (1, vec![]),
            Outcome::Lex(_) => (2, vec![]),
            _ => (3, vec![]),
        }
    };
    // tight spelling: separators only where two tokens would merge
    let seps: &[&str] = &["", " ", "\n", "\t\r\n", "/*c*/", " --x\n", "/*'*/ /*\"*/\n", "--\n--$$\n", " /* /* ; */ */ ", "\x0b", "/*é*/"];
    c.par(w, base.len() as u64, |i, acc| {
        let t = toks_of(w, &base[i as usize]);
        let text = t.join(" ");
        let want = class(&w.sut.parse(&text));
        let kinds = token_kinds(w, &text);
        acc.evals += 1;
        let tryit = |s: String, acc: &mut Acc| {
            acc.evals += 1;
            let got = class(&w.sut.parse(&s));
            acc.sigs.insert(h64(&s));
            if got != want {
                c.violation(&s, format!("the same tree, trivia aside, as for {text:?}"), show(w, &w.sut.parse(&s)), "");
            }
        };
        for g in seps {
            let mut s = String::new();
            for (n, x) in t.iter().enumerate() {
                if n > 0 {
                    if !separable(&t[n - 1], x, g) {
                        s.push(' ');
                    } else {
                        s.push_str(g);
                    }
                }
                s.push_str(x);
            }
            // only if it is the same token sequence (tokens may merge without a blank, operators
            // with a comment): that is a matter of the scanner, judged elsewhere
            if token_kinds(w, &s) == kinds {
                tryit(s, acc);
            }
        }
        for k in 0..=t.len() {
            for g in ["/*c*/", "--x\n", "\n \n"] {
                if k > 0 && k < t.len() && !separable(&t[k - 1], &t[k], g) {
                    continue;
                }
                tryit(with_gap(&t, k, g), acc);
            }
        }
        // different separators at neighbouring gaps
        for k in 1..t.len() {
            for (g, h) in [("/*c*/", "--x\n"), ("--x\n", "/*c*/"), ("\n", " /*a*/ /*b*/ "), ("", "/*'*/\n"), ("/*\"*/", "")] {
                let mut s = String::new();
                for (n, x) in t.iter().enumerate() {
                    let sep = if n == k { g } else if n == k + 1 { h } else { " " };
                    if n > 0 && !separable(&t[n - 1], x, sep) {
                        s.push(' ');
                    } else if n > 0 {
                        s.push_str(sep);
                    }
                    s.push_str(x);
                }
                if token_kinds(w, &s) == kinds {
                    tryit(s, acc);
                }
            }
        }
        // keywords in the other case
        let up: Vec<String> = t
            .iter()
            .map(|x| if w.r.kw.lookup(x.as_bytes()).is_some() { x.to_uppercase() } else { x.clone() })
            .collect();
        tryit(up.join(" "), acc);
    });
    c.put("space:sentences", base.len() as u64);
    // long stretches at each gap
    let long = long_gap_texts(c.quick());
    let plain: Vec<_> = LONG_GAP_STATEMENTS.iter().map(|t| class(&w.sut.parse(t))).collect();
    c.par(w, long.len() as u64, |i, acc| {
        let (k, s) = &long[i as usize];
        acc.evals += 1;
        acc.sigs.insert(h64(s));
        if class(&w.sut.parse(s)) != plain[*k] {
            c.violation(s, format!("the same tree, trivia aside, as for {:?}", LONG_GAP_STATEMENTS[*k]), show(w, &w.sut.parse(s)), "");
        }
    });
    c.put("space:long stretches of trivia", long.len() as u64);
    // far into the text: in front of it, blanks and comments only
    let far: Vec<String> = far_prefixes(c.quick()).into_iter().filter(|f| !f.starts_with('S')).collect();
    c.par(w, (far.len() * plain.len()) as u64, |i, acc| {
        let (f, k) = (&far[i as usize / plain.len()], i as usize % plain.len());
        for s in [format!("{f}{}", LONG_GAP_STATEMENTS[k]), format!("{} {f}", LONG_GAP_STATEMENTS[k])] {
            acc.evals += 1;
            acc.sigs.insert(h64(&s));
            if class(&w.sut.parse(&s)) != plain[k] {
                c.violation(&s, format!("the same tree, trivia aside, as for {:?}", LONG_GAP_STATEMENTS[k]), show(w, &w.sut.parse(&s)), "");
            }
        }
    });
    c.put("space:far into the text", (far.len() * plain.len() * 2) as u64);
    ModelCounts::Parser
}

fn token_kinds(w: &World, s: &str) -> Option<Vec<refpg::lexer::Kind>> {
    w.r.scan(s).ok().map(|(t, _)| t.iter().map(|t| t.kind).collect())
}

/// nesting and token kinds, no positions
pub fn shape(w: &World, evs: &[Ev]) -> Vec<Ev> {
    evs.iter()
        .filter_map(|e| match *e {
            Ev::Open(k, _, _) => Some(Ev::Open(k, 0, 0)),
            Ev::Tok(k, _, _) if w.is_trivia(k) => None,
            Ev::Tok(k, _, _) => Some(Ev::Tok(k, 0, 0)),
            e => Some(e),
        })
        .collect()
}

// ---------------------------------------------------------------- lists of statements

/// subtrees of the statements of a script: the nodes that are the statement-level constituents
fn statements(w: &World, evs: &[Ev]) -> Vec<Vec<Ev>> {
    let stmt = w.r.g.id("toplevel_stmt").unwrap();
    let mut out = vec![];
    let mut depth = 0usize;
    let mut cur: Option<(usize, Vec<Ev>)> = None;
    for e in evs {
        match *e {
            Ev::Open(k, _, _) => {
                depth += 1;
                if k == stmt && cur.is_none() {
                    cur = Some((depth, vec![]));
                }
                if let Some((_, v)) = &mut cur {
                    v.push(Ev::Open(k, 0, 0));
                }
            }
            Ev::Close => {
                if let Some((d, v)) = &mut cur {
                    v.push(Ev::Close);
                    if *d == depth {
                        out.push(cur.take().unwrap().1);
                    }
                }
                depth -= 1;
            }
            Ev::Tok(k, _, _) => {
                if let Some((_, v)) = &mut cur {
                    if !w.is_trivia(k) {
                        v.push(Ev::Tok(k, 0, 0));
                    }
                }
            }
        }
    }
    out
}

pub fn scripts(c: &Ctx, w: &World) -> ModelCounts {
    let base = rule_texts(w);
    c.trace(w, &base);
    // one statement per distinct first rule of the tree, then a spread of others
    let single: Vec<(String, Option<Vec<Vec<Ev>>>)> = base
        .iter()
        .filter(|t| !t.contains(';') || t.contains("atomic"))
        .map(|t| {
            let o = w.sut.parse(t);
            (t.clone(), if let Outcome::Tree(e) = &o { Some(statements(w, e)) } else { None })
        })
        .collect();
    let mut picked: Vec<usize> = vec![];
    let mut seen: std::collections::HashSet<(Option<Vec<Ev>>, bool)> = Default::default();
    for (i, (t, s)) in single.iter().enumerate() {
        let key = s.as_ref().map(|s| s.first().map(|v| v.iter().take(3).copied().collect::<Vec<_>>()).unwrap_or_default());
        if seen.insert((key, t.contains('('))) {
            picked.push(i);
        }
    }
    let extra: Vec<(String, Option<Vec<Vec<Ev>>>)> = ["", "/*c*/", "SELECT", "SELECT 1 FROM", "'x", "begin atomic", "end", "BEGIN", "{"]
        .iter()
        .map(|t| {
            let o = w.sut.parse(t);
            (t.to_string(), if let Outcome::Tree(e) = &o { Some(statements(w, e)) } else { None })
        })
        .collect();
    let mut pool: Vec<&(String, Option<Vec<Vec<Ev>>>)> = picked.iter().map(|i| &single[*i]).collect();
    pool.extend(extra.iter());
    let n = pool.len() as u64;
    c.put("pool", n);
    let check = |parts: &[usize], sep: &str, acc: &mut Acc| {
        let text = parts.iter().map(|p| pool[*p].0.as_str()).collect::<Vec<_>>().join(sep);
        acc.evals += 1;
        acc.sigs.insert(h64(&parts));
        let got = w.sut.parse(&text);
        let want: Option<Vec<Vec<Ev>>> =
            parts.iter().map(|p| pool[*p].1.clone()).collect::<Option<Vec<_>>>().map(|v| v.concat());
        let ok = match (&want, &got) {
            (Some(v), Outcome::Tree(e)) => *v == statements(w, e),
            (None, Outcome::Tree(_)) => false,
            (Some(_), _) => false,
            (None, Outcome::Panic(_) | Outcome::Odd(_)) => false,
            (None, _) => true,
        };
        if !ok {
            c.violation(
                &text,
                match want {
                    Some(v) => format!("the {} statements of the parts, unchanged", v.len()),
                    None => "rejected, as one of the parts is".into(),
                },
                show(w, &got),
                "",
            );
        }
    };
    c.par(w, n * n, |i, acc| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        check(&[a, b], ";", acc);
        check(&[a, b], " ;\n", acc);
    });
    let m = if c.quick() { 40 } else { 90 };
    let step = (pool.len() / m).max(1);
    let sub: Vec<usize> = (0..pool.len()).step_by(step).chain(pool.len() - extra.len()..pool.len()).collect();
    let k = sub.len() as u64;
    c.par(w, k * k * k, |i, acc| {
        let p = [sub[(i / k / k) as usize], sub[(i / k % k) as usize], sub[(i % k) as usize]];
        check(&p, ";", acc);
    });
    // long scripts
    c.par(w, pool.len() as u64, |i, acc| {
        for len in [10usize, 127, 128, 129, 255, 256, 257, 600] {
            check(&vec![i as usize; len], ";", acc);
            // a different statement first, in the middle and last
            let other = (i as usize + 1) % pool.len();
            for at in [0, len / 2, len - 1] {
                let mut v = vec![i as usize; len];
                v[at] = other;
                check(&v, ";", acc);
            }
        }
    });
    c.put("space:pairs", n * n * 2);
    c.put("space:triples", k * k * k);
    ModelCounts::Parser
}

// ---------------------------------------------------------------- history

fn history_pool() -> Vec<String> {
    let mut v: Vec<String> = FRAGMENTS.iter().map(|s| s.to_string()).collect();
    for s in [
        "SELECT 1",
        "select a from t where b = 'c' -- d\n",
        "SELECT /* open",
        "SELECT 'open",
        "SELECT $tag$ body $tag$",
        "SELECT $tag$ body $tagg$",
        "SELECT e'\\uD83D\\uDE00'",
        "SELECT e'\\uD83D",
        "SELECT 1 FROM",
        "SELECT (1",
        "/* a /* b */ c */ SELECT 1",
        "SELECT U&'x' , U&\"y\"",
        "CREATE TABLE t (a int NOT NULL, b timestamp WITH TIME ZONE)",
        "",
        " ",
        ";;",
        "SELECT 1; SELECT 2",
        "SELECT 'a'\n'b'",
        // texts that a cache with too coarse a key would confuse
        "select 1",
        "SELECT 1 ",
        " SELECT 1",
        "SELECT\n1",
        "SELECT\t1",
        "SELECT 2",
        "SELECT a",
        "SELECT A",
        "SELECT .",
        "SELECT /**/1",
        "SELECT 1--",
        "SELECT 1;",
        "SELECT '1'",
        "SELECT 'a'",
        "SELECT 'A'",
        "SELECT \"a\"",
        "SELECT \"A\"",
        "SELECT $a$ 'x' $a$",
        "SELECT $b$ 'x' $b$",
        "SELECT a, b",
        "SELECT b, a",
        "SELECT a  b",
        "1 SELECT",
    ] {
        v.push(s.into());
    }
    v.sort();
    v.dedup();
    v
}

/// Long texts that differ in few places: at the beginning, in the middle or at the end.
fn long_pool() -> Vec<String> {
    let mut v = vec![];
    for n in [10usize, 60, 400, 3000] {
        let item = |k: usize, mid: &str| -> String {
            (0..n).map(|i| if i == k { mid.to_string() } else { format!("a{i} + 1 AS \"x\"") }).collect::<Vec<_>>().join(", ")
        };
        for k in [0, n / 2, n - 1] {
            for mid in ["b", "B", "(", "'", "/*", "é", "1", "\"\"", "e'\\u0000'", "b NOT", "$a$"] {
                v.push(format!("SELECT {} FROM t", item(k, mid)));
            }
        }
        for (open, close) in [("SELECT '", "'"), ("SELECT 1 /*", "*/"), ("SELECT 1 --", "\n"), ("SELECT \"", "\""), ("SELECT $a$", "$a$")] {
            for mid in ["x", "y", "X"] {
                let body = format!("{}{mid}{}", "z".repeat(n), "z".repeat(n));
                v.push(format!("{open}{body}{close}"));
                v.push(format!("{open}{body}"));
            }
        }
    }
    v
}

/// the outcome of `parse`, in a form that does not need the reference
fn raw_outcome(text: &str) -> String {
    raw_tree(&catch_unwind(|| refpg::watch::guard(text, || pg::parse(text))))
}

fn raw_tree(r: &std::thread::Result<Result<pg::ResolvedNode, pg::ParserError>>) -> String {
    use std::fmt::Write;
    match r {
        Err(_) => "panic".into(),
        Ok(Err(e)) => format!("{e:?}"),
        Ok(Ok(tree)) => {
            let mut o = String::new();
            for e in tree.preorder_with_tokens() {
                match e {
                    WalkEvent::Enter(pg::NodeOrToken::Node(n)) => write!(o, "({} {:?} ", n.kind() as u32, n.text_range()).unwrap(),
                    WalkEvent::Enter(pg::NodeOrToken::Token(t)) => {
                        write!(o, "{} {:?} {:?} ", t.kind() as u32, t.text_range(), t.text()).unwrap()
                    }
                    WalkEvent::Leave(pg::NodeOrToken::Node(_)) => o.push(')'),
                    _ => {}
                }
            }
            o
        }
    }
}

/// child process: parse one text, first of all
pub fn fresh_process(hex: &str) -> i32 {
    let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    println!("{}", h64(&raw_outcome(std::str::from_utf8(&bytes).unwrap())));
    0
}

fn unhex(hex: &str) -> String {
    let bytes: Vec<u8> = (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect();
    String::from_utf8(bytes).unwrap()
}

/// child process: the first two calls of the process, on two threads; the first one is stopped at
/// scheduling point `k` until the second one is done
pub fn first_calls(args: &[String]) -> i32 {
    use crate::sched;
    let (a, b) = (unhex(&args[0]), unhex(&args[1]));
    let k: u64 = args[2].parse().unwrap();
    let (fa, fb) = (|| catch_unwind(|| pg::parse(&a)), || catch_unwind(|| pg::parse(&b)));
    let ran = sched::run(&[(0, k), (1, sched::TO_THE_END), (0, sched::TO_THE_END)], &[&fa, &fb]);
    let h: Vec<u64> = ran.results.iter().map(|r| h64(&raw_tree(r))).collect();
    println!("{} {} {} {}", h[0], h[1], ran.points[0], ran.blocked);
    0
}

/// Texts with every keyword, and texts with words that a cache with too coarse a key would take for it.
fn words() -> (Vec<String>, Vec<(usize, String)>) {
    let keywords: Vec<String> = refpg::lexer::Keywords::load().names;
    let mut near: Vec<(usize, String)> = vec![];
    for (i, k) in keywords.iter().enumerate() {
        let b = k.as_bytes();
        let mut v: Vec<Vec<u8>> = vec![];
        for j in 0..b.len() {
            for x in [b'x', b'_'] {
                // one letter; everything from here on; everything up to here
                let one: Vec<u8> = (0..b.len()).map(|m| if m == j { x } else { b[m] }).collect();
                let tail: Vec<u8> = (0..b.len()).map(|m| if m >= j { x } else { b[m] }).collect();
                let head: Vec<u8> = (0..b.len()).map(|m| if m <= j { x } else { b[m] }).collect();
                v.extend([one, tail, head]);
            }
        }
        v.push(b[..b.len() - 1].to_vec());
        v.push([b, b"x"].concat());
        v.push([b"\"", b, b"\""].concat());
        v.push([b"'", b, b"'"].concat());
        let mut m = b.to_vec();
        m.reverse();
        v.push(m);
        v.sort();
        v.dedup();
        near.extend(v.into_iter().filter(|v| !v.is_empty() && !keywords.iter().any(|k| k.as_bytes() == v)).map(|v| (i, format!("SELECT {}", String::from_utf8(v).unwrap()))));
    }
    (keywords.iter().map(|k| format!("SELECT {k}")).collect(), near)
}

/// child process: outcomes of the keywords, or of the other words, each in a thread of its own
pub fn words_alone(which: &str) -> i32 {
    let (k, n) = words();
    let texts: Vec<String> = if which == "keywords" { k } else { n.into_iter().map(|x| x.1).collect() };
    for t in texts {
        println!("{}", std::thread::spawn(move || h64(&raw_outcome(&t))).join().unwrap());
    }
    0
}

/// A word before a keyword, the keyword, the word again.
fn word_histories(c: &Ctx, w: &World) {
    let exe = std::env::current_exe().expect("own path");
    let alone = |which: &str, n: usize| -> Vec<u64> {
        let o = std::process::Command::new(&exe).args(["words-alone", which]).stderr(std::process::Stdio::null()).output();
        let v: Vec<u64> = o.map(|o| String::from_utf8_lossy(&o.stdout).lines().filter_map(|l| l.parse().ok()).collect()).unwrap_or_default();
        if v.len() != n {
            c.violation(which, "an outcome for every word".into(), format!("the process ended after {} of {n}", v.len()), "words alone");
        }
        v
    };
    let (keys, near) = words();
    let (want_keys, want_near) = (alone("keywords", keys.len()), alone("others", near.len()));
    if want_keys.len() != keys.len() || want_near.len() != near.len() {
        return;
    }
    c.par(w, near.len() as u64, |i, acc| {
        let (k, other) = &near[i as usize];
        let key = &keys[*k];
        let seq = [(other, want_near[i as usize]), (key, want_keys[*k]), (other, want_near[i as usize]), (key, want_keys[*k])];
        // on a thread that parses nothing else
        let got: Vec<String> = std::thread::scope(|s| s.spawn(|| seq.iter().map(|(t, _)| raw_outcome(t)).collect()).join().unwrap());
        acc.evals += seq.len() as u64;
        for ((t, want), got) in seq.iter().zip(got) {
            if h64(&got) != *want {
                c.violation(t, "the outcome in a process that did not parse the other one".into(), got, &format!("after one another: {other:?}, {key:?}"));
            }
        }
    });
    c.put("space:keywords and words near them", near.len() as u64);
}

/// Every interleaving of two calls with up to two switches at the allocations of the library, and
/// every place where the very first call of a process can be interrupted by another first call.
fn interleavings(c: &Ctx, w: &World) {
    use crate::sched::{run, TO_THE_END};
    type R = std::thread::Result<Result<pg::ResolvedNode, pg::ParserError>>;
    let texts = [
        "/*a/*b*/*/SELECT 1--",
        "SELECT e'\\uD83D\\uDE00\\''\n'b',$a$x$$a$",
        "SELECT a NOT BETWEEN \"x\" AND .5",
        "SELECT x'1'||U&'y',+1 /*",
        ";",
        "SELECT 1 FROM",
    ];
    let fresh: Vec<Outcome> = texts.iter().map(|t| std::thread::scope(|s| s.spawn(|| w.sut.parse(t)).join().unwrap())).collect();
    let outcome = |k: usize, r: R| match r {
        Ok(Ok(tree)) => w.sut.walk(texts[k], &tree),
        Ok(Err(e)) => error_outcome(e),
        Err(_) => Outcome::Panic(String::new()),
    };
    let blocked = AtomicU64::new(0);
    // one schedule; `who[i]`: the text of thread i
    let go = |schedule: &[(usize, u64)], who: &[usize], acc: &mut Acc| -> Vec<u64> {
        let calls: Vec<Box<dyn Fn() -> R + Sync>> = who
            .iter()
            .map(|k| {
                let t = texts[*k];
                Box::new(move || catch_unwind(|| pg::parse(t))) as Box<dyn Fn() -> R + Sync>
            })
            .collect();
        let refs: Vec<&(dyn Fn() -> R + Sync)> = calls.iter().map(|b| &**b).collect();
        let ran = refpg::watch::guard(texts[who[0]], || run(schedule, &refs));
        if ran.blocked {
            blocked.fetch_add(1, Ordering::Relaxed);
        }
        acc.evals += 1;
        for (i, r) in ran.results.into_iter().enumerate() {
            let got = outcome(who[i], r);
            if got != fresh[who[i]] {
                let plan: Vec<String> = schedule
                    .iter()
                    .map(|(t, n)| if *n == TO_THE_END { format!("{t} to its end") } else { format!("{t} for {n} points") })
                    .collect();
                c.violation(
                    texts[who[i]],
                    show(w, &fresh[who[i]]),
                    show(w, &got),
                    &format!("as thread {i} of {:?}, scheduled: thread {}", who.iter().map(|k| texts[*k]).collect::<Vec<_>>(), plan.join(", thread ")),
                );
            }
        }
        ran.points
    };
    // the number of scheduling points of each text
    let points: Vec<u64> = (0..texts.len()).map(|k| go(&[(0, TO_THE_END)], &[k], &mut Acc::new(w))[0]).collect();
    let (mut one, mut two, mut three) = (vec![], vec![], vec![]);
    for a in 0..texts.len() {
        for b in 0..texts.len() {
            one.extend((0..points[a]).map(|k| (a, b, k)));
            if !c.quick() || (a < 2 && b < 2) || (a == 2 && b == 3) || (a == 3 && b == 2) || a == 4 {
                two.extend((0..points[a]).map(|k| (a, b, k)));
            }
            if !c.quick() && (a == 4 || b == 4) {
                three.extend((0..points[a]).map(|k| (a, b, k)));
            }
        }
    }
    let schedules = AtomicU64::new(0);
    let count = |acc: &mut Acc, f: &dyn Fn(&mut Acc)| {
        let before = acc.evals;
        f(acc);
        schedules.fetch_add(acc.evals - before, Ordering::Relaxed);
    };
    c.par(w, one.len() as u64, |i, acc| {
        let (a, b, k) = one[i as usize];
        count(acc, &|acc| {
            go(&[(0, k), (1, TO_THE_END), (0, TO_THE_END)], &[a, b], acc);
        })
    });
    c.par(w, two.len() as u64, |i, acc| {
        let (a, b, k) = two[i as usize];
        count(acc, &|acc| {
            for m in 0..points[b] {
                go(&[(0, k), (1, m), (0, TO_THE_END), (1, TO_THE_END)], &[a, b], acc);
            }
        })
    });
    // three threads
    c.par(w, three.len() as u64, |i, acc| {
        let (a, b, k) = three[i as usize];
        count(acc, &|acc| {
            for m in 0..points[b] {
                go(&[(0, k), (1, m), (2, TO_THE_END), (1, TO_THE_END), (0, TO_THE_END)], &[a, b, a], acc);
            }
        })
    });
    // two readers of one tree (nodes are made when they are first visited)
    let trees: Vec<usize> = (0..texts.len()).filter(|k| matches!(fresh[*k], Outcome::Tree(_))).collect();
    let readers = AtomicU64::new(0);
    c.par(w, trees.len() as u64, |i, acc| {
        let k = trees[i as usize];
        let mut n = 0;
        let mut at = TO_THE_END;
        // (the first time, to count the points)
        while at == TO_THE_END || at < n {
            let Ok(Ok(tree)) = catch_unwind(|| pg::parse(texts[k])) else { break };
            let read = || w.sut.walk(texts[k], &tree);
            let ran = run(&[(0, at), (1, TO_THE_END), (0, TO_THE_END)], &[&read, &read]);
            n = n.max(ran.points[0]);
            at = at.wrapping_add(1);
            acc.evals += 1;
            readers.fetch_add(1, Ordering::Relaxed);
            for got in ran.results {
                if got != fresh[k] {
                    c.violation(texts[k], show(w, &fresh[k]), show(w, &got), &format!("read by two threads, the first one stopped after {} points for the second one", at.wrapping_sub(1)));
                }
            }
        }
    });
    c.put("space:interleavings of readers", readers.load(Ordering::Relaxed));
    c.put("space:interleavings of calls", schedules.load(Ordering::Relaxed));
    c.put("scheduling_points_per_call", *points.iter().max().unwrap());
    // the first calls of a process
    let exe = std::env::current_exe().expect("own path");
    let hash: Vec<u64> = texts.iter().map(|t| h64(&raw_outcome(t))).collect();
    let mut jobs = vec![];
    for a in 0..texts.len() {
        for b in 0..texts.len() {
            if c.quick() && !(a == b && a < 2 || (a, b) == (4, 0)) {
                continue;
            }
            jobs.extend((0..points[a] + 16).map(|k| (a, b, k)));
        }
    }
    let hex = |k: usize| -> String { texts[k].bytes().map(|b| format!("{b:02x}")).collect() };
    c.par(w, jobs.len() as u64, |i, acc| {
        let (a, b, k) = jobs[i as usize];
        let o = std::process::Command::new(&exe)
            .args(["first-calls", &hex(a), &hex(b), &k.to_string()])
            .stderr(std::process::Stdio::null())
            .output();
        let o = o.map(|o| String::from_utf8_lossy(&o.stdout).trim().to_string()).unwrap_or_default();
        acc.evals += 2;
        let got: Vec<u64> = o.split(' ').take(2).filter_map(|x| x.parse().ok()).collect();
        if got != [hash[a], hash[b]] {
            c.violation(
                texts[a],
                show(w, &fresh[a]),
                format!("another outcome ({o:?})"),
                &format!("first call of a process, stopped after {k} points for the first call of another thread: {:?}", texts[b]),
            );
        }
    });
    c.put("space:interrupted first calls (processes)", jobs.len() as u64);
    c.put("schedules_not_followed_to_the_end", blocked.load(Ordering::Relaxed));
}

/// One text after another that differs from it in little: one character of a long token or text, one
/// number or operator for another. Whatever is remembered of the first must not answer for the second.
fn near_histories(c: &Ctx, w: &World) {
    let t = std::time::Instant::now();
    let mut pairs: Vec<(String, String)> = vec![];
    let wraps = [
        ("SELECT ", "x", ""),
        ("SELECT \"", "x", "\""),
        ("SELECT '", "x", "'"),
        ("SELECT e'", "x", "'"),
        ("SELECT $$", "x", "$$"),
        ("SELECT $", "x", "$ $a$"),
        ("SELECT 1 /*", "x", "*/"),
        ("SELECT 1 --", "x", "\n, 2"),
        ("SELECT ", "1", ""),
        ("SELECT 1 ", "+", " 2"),
        ("SELECT 0x", "1", ""),
        ("SELECT ", "1+", "1"),
        ("SELECT a, ", "b c, ", "d FROM t"),
        ("", "SELECT 1;", ""),
        ("SELECT 1", " ", ", 2"),
    ];
    let edits = ["a", "'", "\"", "$", "*/", "/*", "\n", " ", ";", "2", ".", "é", "\\", "-", "(", "_"];
    for (a, unit, z) in wraps {
        for n in [1usize, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 200, 1000, 4096] {
            let body = unit.repeat(n.div_ceil(unit.len()));
            let base = format!("{a}{body}{z}");
            let len = body.len();
            let mut at = vec![0, 1, 2, 3, len / 4, len / 2, len * 3 / 4, len.saturating_sub(4), len.saturating_sub(3), len.saturating_sub(2), len - 1];
            at.sort();
            at.dedup();
            for k in at.into_iter().filter(|k| *k < len) {
                for e in edits {
                    pairs.push((base.clone(), format!("{a}{}{e}{}{z}", &body[..k], &body[k + 1..])));
                }
            }
        }
    }
    // numbers and operators, each after each
    let mut nums: Vec<String> = [0u64, 1, 9, 10, 99, 32767, 32768, 65535, 65536, 2147483646, 2147483647, 2147483648, 4294967295, 4294967296, u64::MAX].iter().flat_map(|n| [format!("{n}"), format!("{n}.0"), format!("{n:#x}"), format!("${n}"), format!("0{n}"), format!("{n}e1"), format!("{n:#o}"), format!("{n:#b}")]).collect();
    nums.dedup();
    for a in &nums {
        for b in &nums {
            pairs.push((format!("SELECT {a}"), format!("SELECT {b}")));
        }
    }
    let mut ops: Vec<String> = vec![];
    for a in "~!@#^&|`?+-*/%<>=:.".chars() {
        ops.push(a.to_string());
        for b in "~!@#^&|`?+-*/%<>=:.".chars() {
            ops.push(format!("{a}{b}"));
        }
    }
    let m = if c.quick() { 7 } else { 1 };
    for a in ops.iter().step_by(m) {
        for b in &ops {
            pairs.push((format!("SELECT 1 {a} 2"), format!("SELECT 1 {b} 2")));
        }
    }
    c.par(w, pairs.len() as u64, |i, acc| {
        let (a, b) = &pairs[i as usize];
        let _kept = w.sut.parse(a);
        c.judge(w, acc, b, Aspect::Full);
        if a.len() < 300 {
            c.judge(w, acc, a, Aspect::Full);
        }
    });
    c.put("space:near texts in turn", pairs.len() as u64 * 2);
    println!("  near texts in turn: {} pairs, {:.1}s", pairs.len(), t.elapsed().as_secs_f64());
}

pub fn history(c: &Ctx, w: &World) -> ModelCounts {
    let pool = history_pool();
    let n = pool.len() as u64;
    // what a fresh thread says
    let fresh: Vec<Outcome> = pool
        .iter()
        .map(|t| std::thread::scope(|s| s.spawn(|| w.sut.parse(t)).join().unwrap()))
        .collect();
    let fail = |hist: &[usize], got: &Outcome| {
        let k = *hist.last().unwrap();
        c.violation(
            &pool[k],
            show(w, &fresh[k]),
            show(w, got),
            &format!("after {:?}", hist[..hist.len() - 1].iter().map(|i| &pool[*i]).collect::<Vec<_>>()),
        );
    };
    // what a fresh process says: state of the whole process, set up by the first text, would show
    let long = long_pool();
    let exe = std::env::current_exe().expect("own path");
    let all: Vec<&String> = pool.iter().chain(&long).filter(|t| t.len() < 50_000).collect();
    let first: Vec<Option<u64>> = {
        let out = std::sync::Mutex::new(vec![None; all.len()]);
        c.par(w, all.len() as u64, |i, _| {
            let hex: String = all[i as usize].bytes().map(|b| format!("{b:02x}")).collect();
            let o = std::process::Command::new(&exe).args(["fresh-process", &hex]).stderr(std::process::Stdio::null()).output();
            let o = o.ok().and_then(|o| String::from_utf8_lossy(&o.stdout).trim().parse().ok());
            out.lock().unwrap()[i as usize] = o;
        });
        out.into_inner().unwrap()
    };
    let again = |k: usize, note: &str| {
        let got = raw_outcome(all[k]);
        if first[k] != Some(h64(&got)) {
            let want = if first[k].is_none() { "an outcome" } else { "the outcome of a fresh process" };
            c.violation(all[k], want.into(), got.chars().take(2000).collect(), note);
        }
    };
    // every pair of texts, the second one compared with what a fresh process says
    c.par(w, (all.len() * all.len()) as u64, |i, acc| {
        let (a, b) = (i as usize / all.len(), i as usize % all.len());
        if (a < pool.len() && b < pool.len()) || c.stop.load(Ordering::Relaxed) {
            return;
        }
        if c.quick() && (all[a].len() > 5000 || all[b].len() > 5000) && a.abs_diff(b) > 12 {
            return;
        }
        let _kept = catch_unwind(|| refpg::watch::guard(all[a], || pg::parse(all[a])));
        again(b, &format!("after {:?}", all[a].chars().take(200).collect::<String>()));
        acc.evals += 2;
    });
    for k in 0..pool.len() {
        again(k, "in a process that parsed other texts");
    }
    c.put("texts_in_fresh_processes", all.len() as u64);
    c.put("space:pairs with long texts", (all.len() * all.len()) as u64);
    // the same buffer with other contents
    c.par(w, pool.len() as u64, |a, acc| {
        let max = pool.iter().map(|t| t.len()).max().unwrap();
        let pad = |t: &str| format!("{t:max$}").into_bytes().into_iter().take(max).collect::<Vec<u8>>();
        let mut buf = pad(&pool[a as usize]);
        for t in &pool {
            for t in [&pool[a as usize], t] {
                buf.copy_from_slice(&pad(t));
                let Ok(text) = std::str::from_utf8(&buf) else { continue };
                let want = w.sut.parse(&text.to_string());
                let got = w.sut.parse(text);
                acc.evals += 2;
                if want != got {
                    c.violation(text, show(w, &want), show(w, &got), "in a buffer that held another text before");
                }
            }
        }
    });
    // every sequence of up to three calls on one thread, trees of earlier calls still alive
    c.par(w, n * n, |i, acc| {
        let (a, b) = ((i / n) as usize, (i % n) as usize);
        let ta = catch_unwind(|| refpg::watch::guard(&pool[a], || pg::parse(&pool[a])));
        let tb = catch_unwind(|| refpg::watch::guard(&pool[b], || pg::parse(&pool[b])));
        for k in 0..n as usize {
            let got = w.sut.parse(&pool[k]);
            acc.evals += 1;
            acc.sigs.insert(h64(&(a, b, k)));
            if got != fresh[k] {
                fail(&[a, b, k], &got);
            }
        }
        // the earlier results are still what they were
        for (t, k) in [(ta, a), (tb, b)] {
            let got = match t {
                Ok(Ok(tree)) => w.sut.walk(&pool[k], &tree),
                Ok(Err(e)) => error_outcome(e),
                Err(_) => Outcome::Panic(String::new()),
            };
            acc.evals += 1;
            if got != fresh[k] {
                fail(&[a, b, k], &got);
            }
        }
    });
    c.put("space:sequences of three calls", n * n * n);
    // trees handed to another thread and outliving the thread that made them
    let trees: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = pool.iter().map(|t| s.spawn(move || catch_unwind(|| refpg::watch::guard(t, || pg::parse(t)).ok()).ok().flatten())).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (k, t) in trees.iter().enumerate() {
        if let Some(t) = t {
            let got = w.sut.walk(&pool[k], t);
            if got != fresh[k] {
                fail(&[k], &got);
            }
        }
    }
    word_histories(c, w);
    near_histories(c, w);
    interleavings(c, w);
    // all pairs of texts parsed at the same time on free-running threads
    let reps = if c.quick() { 3 } else { 30 };
    let mut acc = Acc::new(w);
    for a in 0..n as usize {
        let bad: Vec<(usize, Outcome)> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..c.threads)
                .map(|t| {
                    let (pool, fresh) = (&pool, &fresh);
                    s.spawn(move || {
                        let mut bad = vec![];
                        for r in 0..reps {
                            for b in 0..pool.len() {
                                let k = if (r + t) % 2 == 0 { a } else { b };
                                let got = w.sut.parse(&pool[k]);
                                if got != fresh[k] && bad.len() < 3 {
                                    bad.push((k, got));
                                }
                            }
                        }
                        bad
                    })
                })
                .collect();
            hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
        });
        acc.evals += (c.threads * reps * pool.len()) as u64;
        for (k, got) in bad {
            c.violation(&pool[k], show(w, &fresh[k]), show(w, &got), "while other threads parse");
        }
    }
    c.merge(acc);
    // repeated calls: the thousandth is like the first, and leaves nothing behind for any other text
    let many = 70_000;
    c.par(w, n, |k, acc| {
        let k = k as usize;
        let reps = if c.quick() && pool[k].len() > 9 { 1100 } else { many };
        std::thread::scope(|s| {
            s.spawn(|| {
                for _ in 0..reps {
                    let got = w.sut.parse(&pool[k]);
                    if got != fresh[k] {
                        return fail(&[k, k], &got);
                    }
                }
                for b in 0..pool.len() {
                    let got = w.sut.parse(&pool[b]);
                    if got != fresh[b] {
                        return fail(&[k, b], &got);
                    }
                }
            });
        });
        acc.evals += (reps + pool.len()) as u64;
    });
    c.put("repetitions_before_each_text", many as u64);
    c.trace(w, &pool);
    let _ = WORD_CTX;
    ModelCounts::Parser
}

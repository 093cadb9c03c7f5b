//! C22: what the readers make of grammar files and of scanner files. Files are composed from a known
//! content and a layout; all layouts of a bounded space are read, and the result must be the content.
#[cfg(feature = "flex")]
use crate::flex_file::parse_flex_file;
#[cfg(feature = "tables")]
use crate::parser_generator::verif_hooks as vh;
use super::report::{Ctx, h64};
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone, Debug, PartialEq, Default)]
struct Content {
    rules: Vec<(String, Vec<String>, Option<String>)>,
    /// (directive, names) in order of increasing precedence
    prec: Vec<(char, Vec<String>)>,
}

#[cfg(feature = "tables")]
fn judge(c: &Ctx, text: &str, want: &Content) {
    c.traces.fetch_add(1, Relaxed);
    if let Some(m) = difference(text, want) {
        c.violation(text, m);
    }
}

/// what is wrong with the reading of a file
#[cfg(feature = "tables")]
fn difference(text: &str, want: &Content) -> Option<String> {
    let got = match std::panic::catch_unwind(|| refpg::watch::guard(text, || vh::read(text))) {
        Ok(g) => g,
        Err(_) => return Some("the reader panics".into()),
    };
    let bare = |s: &String| s.trim_matches('\'').to_string();
    let rules: Vec<_> = want.rules.iter().map(|(l, r, p)| (l.clone(), r.iter().map(bare).collect::<Vec<_>>(), p.as_ref().map(bare))).collect();
    let seen: Vec<_> = got.rules.iter().map(|(l, r, p)| (l.clone(), r.iter().map(bare).collect::<Vec<_>>(), p.as_ref().map(bare))).collect();
    if rules != seen {
        let i = rules.iter().zip(&seen).take_while(|(a, b)| a == b).count();
        return Some(format!("rule {i}: expected {:?}, read {:?}", rules.get(i), seen.get(i)));
    }
    // levels: compared by order, not by number
    let mut lv: Vec<(usize, char, Vec<String>)> = vec![];
    for (n, l, d) in &got.precedence {
        match lv.iter_mut().find(|x| x.0 == *l) {
            Some(x) => {
                if x.1 != *d {
                    return Some(format!("level {l} has two directives"));
                }
                x.2.push(n.clone());
            }
            None => lv.push((*l, *d, vec![n.clone()])),
        }
    }
    lv.sort();
    let mut lv: Vec<(char, Vec<String>)> = lv.into_iter().map(|x| (x.1, x.2)).collect();
    lv.iter_mut().for_each(|x| x.1.sort());
    let mut wl = want.prec.clone();
    wl.iter_mut().for_each(|x| x.1.sort());
    (lv != wl).then(|| format!("precedence: expected {wl:?}, read {lv:?}"))
}

/// tokens of the rules section with, before each, the places where an action may stand
fn tokens(rules: &[(String, Vec<String>, Option<String>)]) -> Vec<(String, bool)> {
    let mut v: Vec<(String, bool)> = vec![];
    let mut i = 0;
    while i < rules.len() {
        let l = &rules[i].0;
        v.push((l.clone(), false));
        v.push((":".into(), false));
        let mut first = true;
        while i < rules.len() && rules[i].0 == *l {
            if !first {
                v.push(("|".into(), true));
            }
            first = false;
            v.extend(rules[i].1.iter().map(|x| (x.clone(), false)));
            if let Some(p) = &rules[i].2 {
                v.push(("%prec".into(), false));
                v.push((p.clone(), false));
            }
            i += 1;
        }
        v.push((";".into(), true));
    }
    v
}

const PLAIN: &[&str] = &[
    "\n",
    "\t",
    "\n\t\t\t",
    "  \r\n ",
    "/* c */",
    " /* it's one */ ",
    "/* a: b | c ; */",
    "/* %prec x { */",
    "/**/",
    "/***/",
    "/****/",
    "/* **/",
    "/*/ a : b */",
    "/*//*/",
    "/* * / ** // */",
    "/*\n * two\n * lines\n */\n",
    " // c ; | : {\n",
    "//\n",
    "// it's /* one\n",
    "\n\n\n",
];
const ACTIONS: &[&str] = &[
    "{}",
    " { $$ = $1; } ",
    "\n\t\t\t\t{\n\t\t\t\t\t$$ = f($1, '%');\n\t\t\t\t}\n",
    "{ if (a) { b; } else { c: d | e; } }",
    "{ {} {{}} }",
    "{ /* c */ }",
    " /* c */ { x; } // y\n",
    "{ x; } /* c */ ",
    "{ \"s\" }\n",
    "{ c = '}'; e = '\\\"'; d = \"}\\\"{\"; f = '\"'; g = '{'; h = '\\\\'; }",
    "{ /* it's } */ x; // don't {\n }",
    "\n\t{\n\t\t/* { */\n\t\tif (x == '\\'' || y == '{') { z(\"/* {\"); }\n\t}\n",
    "{ a; } { b; }",
];

fn bases() -> Vec<Content> {
    let s = |x: &str| x.to_string();
    let r = |l: &str, c: &[&str], p: Option<&str>| (s(l), c.iter().map(|x| s(x)).collect::<Vec<_>>(), p.map(s));
    vec![
        Content {
            rules: vec![r("stmts", &["stmts", "';'", "stmt"], None), r("stmts", &["stmt"], None), r("stmt", &["SELECT", "'('", "opt_x", "')'"], None), r("stmt", &[], None), r("opt_x", &["IDENT"], Some("LOW")), r("opt_x", &[], None)],
            prec: vec![('n', vec![s("LOW")]), ('n', vec![s("IDENT"), s("'('")])],
        },
        Content {
            rules: vec![r("e", &["e", "'+'", "e"], None), r("e", &["'-'", "e"], Some("UMINUS")), r("e", &["e", "'|'", "e"], Some("'+'")), r("e", &["':'", "e2_a"], None), r("e2_a", &["ICONST"], None), r("e2_a", &["'{'", "e", "'}'"], None), r("e2_a", &["'/'", "'%'", "FOO_P"], None)],
            prec: vec![('l', vec![s("'+'"), s("'|'")]), ('r', vec![s("UMINUS")])],
        },
        Content { rules: vec![r("a", &[], None)], prec: vec![] },
    ]
}

fn head(c: &Content) -> String {
    c.prec
        .iter()
        .map(|(d, n)| format!("%{}\t{}\n", match d { 'l' => "left", 'r' => "right", _ => "nonassoc" }, n.join(" ")))
        .collect()
}

/// may two tokens stand next to each other without anything between?
fn touch(a: &str, b: &str) -> bool {
    let word = |s: &str| s.starts_with(|c: char| c.is_ascii_alphanumeric() || c == '_');
    let end = |s: &str| s.ends_with(|c: char| c.is_ascii_alphanumeric() || c == '_');
    !(end(a) && word(b))
}

#[cfg(feature = "tables")]
fn layouts(c: &Ctx, pairs: bool) {
    for (bi, base) in bases().iter().enumerate() {
        let toks = tokens(&base.rules);
        let n = toks.len() + 1;
        let fill = |g: usize| -> Vec<&'static str> {
            let mut v: Vec<&'static str> = PLAIN.to_vec();
            if g < toks.len() && toks[g].1 {
                v.extend(ACTIONS);
            }
            if g == 0 || g == toks.len() || touch(&toks[g - 1].0, &toks[g].0) {
                v.push("");
            }
            v
        };
        let build = |at: &[(usize, &str)], normal: &str| -> String {
            let mut s = head(base) + "%%\n";
            for g in 0..n {
                let f = at.iter().find(|x| x.0 == g).map(|x| x.1).unwrap_or(normal);
                s += f;
                if g < toks.len() {
                    s += &toks[g].0;
                }
            }
            s + "\n%%\n"
        };
        let mut all: Vec<Vec<(usize, &str)>> = vec![vec![]];
        for g in 0..n {
            for f in fill(g) {
                all.push(vec![(g, f)]);
                if pairs || bi == 2 {
                    for h in g + 1..n {
                        for f2 in fill(h) {
                            all.push(vec![(g, f), (h, f2)]);
                        }
                    }
                }
            }
        }
        for (name, normal) in [("blanks", " "), ("line breaks", "\n"), ("comments", "/* c */"), ("line comments", "//c\n")] {
            c.par(&format!("layouts of grammar {bi}, otherwise {name}"), all.len() as u64, |i| {
                let text = build(&all[i as usize], normal);
                if i % (all.len() as u64 / 2 + 1) == 3 {
                    c.sample(&text);
                }
                c.outcome(h64(&text));
                judge(c, &text, base);
            });
        }
        // the same layout in every gap
        let every: Vec<&str> = PLAIN.to_vec();
        c.par(&format!("uniform layouts of grammar {bi}"), every.len() as u64, |i| judge(c, &build(&[], every[i as usize]), base));
        c.states.fetch_add(n as u64, Relaxed);
        c.transitions.fetch_add((0..n).map(|g| fill(g).len() as u64).sum(), Relaxed);
    }
}

/// all small rule sets in the usual layout with actions
#[cfg(feature = "tables")]
fn contents(c: &Ctx, max: usize) {
    let rhs: Vec<(Vec<&str>, Option<&str>)> = vec![
        (vec![], None),
        (vec!["A_P"], None),
        (vec!["x", "','"], None),
        (vec!["x", "y", "z"], None),
        (vec![], Some("A_P")),
        (vec!["'|'", "':'", "';'"], Some("UMINUS")),
        (vec!["'{'", "x1", "'}'", "SELECT", "'%'"], Some("';'")),
    ];
    let tails = ["", "\n\t{ $$ = $1; }", "\n\t\t{\n\t\t\tif (x) { y; }\n\t\t}", " /* EMPTY */", " /* c */ { $$ = 0; } /* d */"];
    let lhs = ["x", "y", "z", "x1"];
    let alt = rhs.len() * tails.len();
    // a shape: how the alternatives are distributed over the rules
    for k in 1..=max {
        let n = (alt as u64).pow(k as u32) << (k - 1);
        c.par(&format!("grammar files with {k} alternatives"), n, |i| {
            let mut cut = i & ((1 << (k - 1)) - 1);
            let mut i = i >> (k - 1);
            let mut want = Content::default();
            let mut s = String::from("%%\n");
            let mut l = 0;
            for j in 0..k {
                let x = (i % alt as u64) as usize;
                i /= alt as u64;
                let (r, p) = &rhs[x / tails.len()];
                want.rules.push((lhs[l].into(), r.iter().map(|x| x.to_string()).collect(), p.map(|x| x.into())));
                if j == 0 || want.rules[j - 1].0 != lhs[l] {
                    s += &format!("{}:\t\t", lhs[l]);
                } else {
                    s += "\t\t| ";
                }
                s += &r.join(" ");
                if let Some(p) = p {
                    s += &format!("\t\t%prec {p}");
                }
                s += tails[x % tails.len()];
                s += "\n";
                if j + 1 == k || cut & 1 == 1 {
                    s += "\t\t;\n\n";
                    l += 1;
                }
                cut >>= 1;
            }
            s += "%%\n\nint c(void) { return 0; }\n";
            c.outcome(h64(&want.rules));
            c.states.fetch_add(1, Relaxed);
            c.transitions.fetch_add(k as u64, Relaxed);
            judge(c, &s, &want);
        });
    }
}

/// layouts that the reader is known not to take: reported under their own names
#[cfg(feature = "tables")]
fn corners(c: &Ctx) {
    let l = |d: char, n: &[&str]| (d, n.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    let rules = "%%\ne: e A_P e | B_P ;\n%%\n";
    let all = [
        ("a line of a comment that begins with %left is read as a declaration", "/*\n%left C_P\n*/\n%left A_P\n", vec![l('l', &["A_P"])]),
        ("symbols of a precedence declaration that stand in the first column of the next line are dropped", "%left A_P\nB_P\n", vec![l('l', &["A_P", "B_P"])]),
        ("a second precedence declaration on a line is read as symbols of the first", "%left A_P %right B_P\n", vec![l('l', &["A_P"]), l('r', &["B_P"])]),
    ];
    for (name, decl, prec) in all {
        c.traces.fetch_add(1, Relaxed);
        let e = |r: &[&str]| ("e".to_string(), r.iter().map(|x| x.to_string()).collect::<Vec<_>>(), None);
        let want = Content { rules: vec![e(&["e", "A_P", "e"]), e(&["B_P"])], prec };
        if difference(&format!("{decl}{rules}"), &want).is_some() {
            c.known(name);
        }
    }
}

/// files that grow
#[cfg(feature = "tables")]
fn growing(c: &Ctx) {
    let sizes = [5usize, 8, 9, 10, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 999, 1000, 1001, 1025];
    c.par("growing grammar files", sizes.len() as u64 * 10, |i| {
        let n = sizes[(i / 10) as usize];
        let mut want = Content::default();
        let e = |l: &str, r: Vec<String>| (l.to_string(), r, None);
        let t = |i: usize| format!("T{i}");
        let mut s = String::new();
        let mut lines = |k: usize, f: &dyn Fn(usize) -> String| (0..k).map(f).collect::<String>();
        let two = "%%\na: A_P\n | b ;\nb: { @@ } B_P { @@ } %prec LOW;\n%%\n";
        want.rules = vec![e("a", vec!["A_P".into()]), e("a", vec!["b".into()]), ("b".to_string(), vec!["B_P".into()], Some("LOW".to_string()))];
        match i % 10 {
            // rules, alternatives, symbols
            0 => {
                want.rules = (0..n).map(|i| e(&format!("r{i}"), vec![t(i), format!("r{}", (i + 1) % n)])).collect();
                s = format!("%%\n{}%%\n", lines(n, &|i| format!("r{i}:\tT{i} r{}\n\t\t\t{{ $$ = $1; }}\n\t\t;\n", (i + 1) % n)));
            }
            1 => {
                want.rules = (0..n).map(|i| e("a", vec![t(i)])).collect();
                s = format!("%%\na:{}\t\t;\n%%\n", lines(n, &|i| format!("{} T{i}\t{{ x; }}\n", if i > 0 { "\t\t|" } else { "" })));
            }
            2 => {
                want.rules = vec![e("a", (0..n).map(t).collect())];
                s = format!("%%\na:{};\n%%\n", lines(n, &|i| format!(" T{i}{}", if i % 7 == 6 { "\n\t\t" } else { "" })));
            }
            // levels, symbols of a level on one line and on many
            3 => {
                want.prec = (0..n).map(|i| (['l', 'r', 'n'][i % 3], vec![t(i)])).collect();
                s = lines(n, &|i| format!("%{}\tT{i}\n", ["left", "right", "nonassoc"][i % 3])) + two;
            }
            4 => {
                want.prec = vec![('l', vec!["A_P".into()]), ('n', (0..n).map(t).collect()), ('r', vec!["B_P".into()])];
                s = format!("%left A_P\n%nonassoc{}\n%right B_P\n{two}", lines(n, &|i| format!(" T{i}")));
            }
            5 => {
                want.prec = vec![('l', vec!["A_P".into()]), ('n', (0..n).map(t).collect()), ('r', vec!["B_P".into()])];
                s = format!("%left A_P\n%nonassoc T0\n{}%right B_P\n{two}", lines(n - 1, &|i| format!("\t\t\tT{}\n", i + 1)));
            }
            // long actions, nested braces, long comments, many blank lines, a long name
            6 => s = two.replace("@@", &lines(n, &|i| format!("if (x{i}) {{ y = '%'; }}\n"))),
            7 => s = two.replace("@@", &format!("{}{}", "{ ".repeat(n), "} ".repeat(n))),
            8 => {
                let fill = format!("/* {}*/{}// {}\n", "c ; | {\n".repeat(n), "\n".repeat(n), "x ".repeat(n));
                s = format!("{fill}%left A_P\n{}", two.replace(" ;", &format!("{fill};")).replace("%prec", &format!("{fill}%prec{fill}")));
                want.prec = vec![('l', vec!["A_P".into()])];
            }
            _ => {
                let long = "x_1".repeat(n);
                want.rules = vec![e(&long, vec![long.clone(), long.to_uppercase()]), e(&long, vec![])];
                want.prec = vec![('r', vec![long.to_uppercase()])];
                s = format!("%right {}\n%%\n{long}: {long} {} | ;\n%%\n", long.to_uppercase(), long.to_uppercase());
            }
        }
        c.outcome(h64(&s));
        judge(c, &s, &want);
    });
}

/// every literal, names of all shapes
#[cfg(feature = "tables")]
fn symbols(c: &Ctx) {
    let mut v: Vec<String> = (0x21..0x7fu8).filter(|b| *b != b'\'' && *b != b'\\').map(|b| format!("'{}'", b as char)).collect();
    for n in ["a", "Z", "aB", "a_b", "a1", "A_P", "x_", "IDENT", "Op", "SCONST", "a__1", "TYPECAST", "NOT_LA", "FORMAT_LA"] {
        v.push(n.into());
    }
    let n = v.len() as u64;
    c.par("pairs of symbols", n * n, |i| {
        let (a, b) = (&v[(i / n) as usize], &v[(i % n) as usize]);
        let want = Content {
            rules: vec![("s".into(), vec![a.clone(), b.clone()], None), ("s".into(), vec![b.clone()], Some(a.clone()))],
            prec: if a == b { vec![('l', vec![a.clone()])] } else { vec![('r', vec![b.clone()]), ('l', vec![a.clone()])] },
        };
        let mut s = head(&want);
        s += &format!("%%\ns: {a} {b}\n | {b} %prec {a} ;\n%%\n");
        judge(c, &s, &want);
    });
}

/// declarations in front of the rules
#[cfg(feature = "tables")]
fn declarations(c: &Ctx, max: usize) {
    // text, precedence it adds
    let s = |x: &[&str]| x.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let pool: Vec<(&str, Option<(char, Vec<String>)>)> = vec![
        ("%left\t\tUNION EXCEPT\n", Some(('l', s(&["UNION", "EXCEPT"])))),
        ("%right NOT\n", Some(('r', s(&["NOT"])))),
        ("%nonassoc '<' '>' '='\n", Some(('n', s(&["'<'", "'>'", "'='"])))),
        ("%left\t'+' '-'\t/* binary, '*' binds tighter */\n", Some(('l', s(&["'+'", "'-'"])))),
        ("%nonassoc\tIDENT PARTITION\n\t\t\tSET KEYS\n", Some(('n', s(&["IDENT", "PARTITION", "SET", "KEYS"])))),
        ("%right\t'^'\n", Some(('r', s(&["'^'"])))),
        ("%left\tA_P /* one\n\t * two B_P\n three */ C_P\n", Some(('l', s(&["A_P", "C_P"])))),
        ("%right\tOP\t/* c */\n\t\t\tOP2 /* d */ OP3\n", Some(('r', s(&["OP", "OP2", "OP3"])))),
        ("%nonassoc\t/**/X1/*c*/X2\t// X3\n\tX4\n", Some(('n', s(&["X1", "X2", "X4"])))),
        ("/* Unary Operators */\n", None),
        ("/*\n * text %left X\n * %left Y\n */\n", None),
        ("\n\n", None),
        ("%token <str>\tIDENT UIDENT\n\tFCONST\n", None),
        ("%token NOT_LA WITH_LA\n", None),
        ("%token <keyword> ABORT_P\n\n\tZONE\n", None),
        ("%type <node>\tstmt e\n\t\tx\n", None),
        ("%expect 0\n%pure-parser\n", None),
        ("%union\n{\n\tint\t\tival;\n\tNode\t*node;\n}\n", None),
        ("%{\n#include \"x.h\"\nstatic int f(void);\n%}\n", None),
    ];
    let n = pool.len() as u64;
    for k in 1..=max {
        c.par(&format!("sequences of {k} declarations"), n.pow(k as u32), |i| {
            let mut i = i;
            let mut want = Content { rules: vec![("e".into(), vec!["e".into(), "'+'".into()], None)], prec: vec![] };
            let mut t = String::new();
            let mut used = [false; 19];
            for _ in 0..k {
                let x = (i % n) as usize;
                i /= n;
                // a symbol is declared once
                if pool[x].1.is_some() && std::mem::replace(&mut used[x], true) {
                    c.skipped.fetch_add(1, Relaxed);
                    return;
                }
                t += pool[x].0;
                want.prec.extend(pool[x].1.clone());
            }
            t += "%%\ne: e '+' ;\n%%\n";
            c.states.fetch_add(1, Relaxed);
            c.transitions.fetch_add(k as u64, Relaxed);
            c.outcome(h64(&want.prec));
            judge(c, &t, &want);
        });
    }
}

#[cfg(feature = "flex")]
type FlexRule = (Vec<&'static str>, &'static str, &'static str);

#[cfg(feature = "flex")]
fn flex_file(c: &Ctx, t: &str, want: Vec<(Vec<String>, String, String)>, sts: &[&str], defs: &[(&str, &str)]) {
    let Ok(f) = std::panic::catch_unwind(|| refpg::watch::guard(t, || parse_flex_file(t))) else {
        return c.violation(t, "the reader panics".into());
    };
    let got: Vec<(Vec<String>, String, String)> =
        f.rules.iter().map(|r| (r.states.clone(), r.pattern.clone(), r.actions.trim().to_string())).collect();
    let norm = |s: &str| s.lines().map(|l| l.trim_end()).collect::<Vec<_>>().join("\n");
    let got: Vec<_> = got.into_iter().map(|(s, p, a)| (s, p, norm(&a))).collect();
    let want: Vec<_> = want.into_iter().map(|(s, p, a)| (s, p, norm(&a))).collect();
    if got != want {
        let j = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        return c.violation(t, format!("rule {j}: expected {:?}, read {:?}", want.get(j), got.get(j)));
    }
    let mut st: Vec<&str> = vec!["INITIAL"];
    st.extend(sts.iter().copied());
    if f.all_states != st {
        return c.violation(t, format!("states: expected {st:?}, read {:?}", f.all_states));
    }
    let d: Vec<(&str, &str)> = f.definitions.iter().map(|d| (d.name.as_str(), d.def.as_str())).collect();
    if d != defs {
        c.violation(t, format!("definitions: expected {defs:?}, read {d:?}"));
    }
}

#[cfg(feature = "flex")]
fn flex_growing(c: &Ctx) {
    let sizes = [5usize, 8, 9, 10, 16, 17, 32, 33, 50, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 1000];
    c.par("growing scanner files", sizes.len() as u64 * 6, |i| {
        let n = sizes[(i / 6) as usize];
        let (names, defs): (Vec<String>, Vec<(String, String)>) = (0..n).map(|i| (format!("x{i}"), (format!("d{i}"), format!("a{i}{{d0}}[ ]")))).unzip();
        let states: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
        let defs: Vec<(&str, &str)> = defs.iter().map(|d| (d.0.as_str(), d.1.as_str())).collect();
        let mut head: String = states.iter().map(|x| format!("%x {x}\n")).collect();
        head += &defs.iter().map(|d| format!("{}\t\t{}\n", d.0, d.1)).collect::<String>();
        let r = |s: &[&str], p: &str, a: &str| (s.iter().map(|x| x.to_string()).collect::<Vec<_>>(), p.to_string(), a.to_string());
        let mut want = vec![];
        let mut t = String::new();
        match i % 6 {
            0 => {
                for k in 0..n {
                    t += &format!("<{}>{{d{k}}}\t\t{{ a{k}; }}\n", states[k]);
                    want.push(r(&[states[k]], &format!("{{d{k}}}"), &format!("{{ a{k}; }}")));
                }
            }
            1 => {
                t = format!("<{}>{{\n", states.join(","));
                for k in 0..n {
                    t += &format!("{{d{k}}}\t{{ a{k}; }}\n");
                    want.push(r(&states, &format!("{{d{k}}}"), &format!("{{ a{k}; }}")));
                }
                t += "}\n";
            }
            2 => {
                for k in 0..n {
                    t += &format!("<{}>{{\nab\t|\ncd\t{{ {k} }}\n}}\n\n", states[k]);
                    want.push(r(&[states[k]], "ab", "|"));
                    want.push(r(&[states[k]], "cd", &format!("{{ {k} }}")));
                }
            }
            3 => {
                let a: String = (0..n).map(|k| format!("\tif x{k} {{\n\t\ty;\n\t}}\n")).collect();
                t = format!("ab\t{{\n{a}}}\n");
                want.push(r(&["INITIAL"], "ab", &format!("{{\n{a}}}")));
            }
            4 => {
                let a = format!("{{ {}{}}}", "{ ".repeat(n), "} ".repeat(n));
                t = format!("ab {a}\n");
                want.push(r(&["INITIAL"], "ab", &a));
            }
            _ => {
                let p = "a{1,2}[^ ]".repeat(n);
                t = format!("{p}\t{{ x }}\n{}<<EOF>> {{ y }}\n", "\n".repeat(n));
                want.push(r(&["INITIAL"], &p, "{ x }"));
                want.push(r(&["INITIAL"], "<<EOF>>", "{ y }"));
            }
        }
        t += "z\t{ end }\n";
        want.push(r(&["INITIAL"], "z", "{ end }"));
        c.traces.fetch_add(1, Relaxed);
        c.outcome(h64(&t));
        flex_file(c, &format!("{head}%%\n{t}%%\nrest\n"), want, &states, &defs);
    });
}

#[cfg(feature = "flex")]
fn flex(c: &Ctx, max: usize) {
    // text of a piece of the rules section and the rules it stands for
    let pool: Vec<(&str, Vec<FlexRule>)> = vec![
        ("{ws}\t{ a; }\n", vec![(vec!["INITIAL"], "{ws}", "{ a; }")]),
        ("abc\t\t{\n\t\t\tif x { y; }\n\t\t}\n", vec![(vec!["INITIAL"], "abc", "{\n\t\t\tif x { y; }\n\t\t}")]),
        ("<xq>[^']\t{ b; }\n", vec![(vec!["xq"], "[^']", "{ b; }")]),
        ("<xq,xe>\\\\.\t{ c; }\n", vec![(vec!["xq", "xe"], "\\\\.", "{ c; }")]),
        ("<xe,xq,INITIAL>{x}|y\t{ d; }\n", vec![(vec!["xe", "xq", "INITIAL"], "{x}|y", "{ d; }")]),
        ("<xq>{q}\t|\n<xe>{e}\t{ f; }\n", vec![(vec!["xq"], "{q}", "|"), (vec!["xe"], "{e}", "{ f; }")]),
        ("<xq><<EOF>>\t\t{ g!(\"x\"); }\n", vec![(vec!["xq"], "<<EOF>>", "{ g!(\"x\"); }")]),
        ("<<EOF>>\t{\n\tyyterminate!();\n}\n", vec![(vec!["INITIAL"], "<<EOF>>", "{\n\tyyterminate!();\n}")]),
        ("<xe>{\n{x}\t{ h; }\n}\n", vec![(vec!["xe"], "{x}", "{ h; }")]),
        ("<xq,xe>{\n{x}+\t\t{ i; }\n\n<<EOF>>\t{\n\t\t\tj();\n\t\t}\n\"\\\"\"\t|\n.\t{ k; }\n} /* <xq> */\n", vec![(vec!["xq", "xe"], "{x}+", "{ i; }"), (vec!["xq", "xe"], "<<EOF>>", "{\n\t\t\tj();\n\t\t}"), (vec!["xq", "xe"], "\"\\\"\"", "|"), (vec!["xq", "xe"], ".", "{ k; }")]),
        ("\n", vec![]),
        ("\t\n\n", vec![]),
        ("\"a b\"[ \t\\]]\\ x+  { n; }\n", vec![(vec!["INITIAL"], "\"a b\"[ \t\\]]\\ x+", "{ n; }")]),
        (
            "[] ]x[^] \t{]\"[ ] \"[^ ]] { w; }\n",
            vec![(vec!["INITIAL"], "[] ]x[^] \t{]\"[ ] \"[^ ]]", "{ w; }")],
        ),
        ("<xe>[^\"]\\\"[\"]\n", vec![(vec!["xe"], "[^\"]\\\"[\"]", "")]),
        (
            "z\t{ o('{', \"}\\\"\"); // }\n\t\t/* { */ p('\"', '}', '\\\"', 'x', '}') }\n",
            vec![(vec!["INITIAL"], "z", "{ o('{', \"}\\\"\"); // }\n\t\t/* { */ p('\"', '}', '\\\"', 'x', '}') }")],
        ),
        (
            "<xq,xe>{\n\t/* a */\n    {x}[ ]  { q; }\n\t\\{\t|\n /* b\nc\td }\n*/\n  <<EOF>>\t{\n r;\n}\n  }\n",
            vec![(vec!["xq", "xe"], "{x}[ ]", "{ q; }"), (vec!["xq", "xe"], "\\{", "|"), (vec!["xq", "xe"], "<<EOF>>", "{\n r;\n}")],
        ),
        (
            "<xq>{ \t\n<xe>a { s; }\n<xe>{\t/* c }\n d */\nb { t; }\n<xq>c { u; }\n}\nd { v; }\n}  \n",
            vec![(vec!["xq", "xe"], "a", "{ s; }"), (vec!["xq", "xe"], "b", "{ t; }"), (vec!["xq", "xe"], "c", "{ u; }"), (vec!["xq"], "d", "{ v; }")],
        ),
        ("\t/* <xq>x { */\n  /*\n * two\nlines\t{\n\t*/\n", vec![]),
        ("x{1,3}\t{ // c {}\n\t\tm({ 1 })\n\t}\n", vec![(vec!["INITIAL"], "x{1,3}", "{ // c {}\n\t\tm({ 1 })\n\t}")]),
    ];
    let heads: [(&str, Vec<&str>, Vec<(&str, &str)>); 6] = [
        ("/* one\ntwo three\n%x four\nfive\tsix\n*/\n%x xe\n/*x*/\n /* y\n z */\nws\ta\n", vec!["xe"], vec![("ws", "a")]),
        ("%x xq xe\n%x\txd  xf\nws [ ]+\nx   a\nname_3 \t\"a b\"\n", vec!["xq", "xe", "xd", "xf"], vec![("ws", "[ ]+"), ("x", "a"), ("name_3", "\"a b\"")]),
        ("%x xq\n%x xe\nws\t[ ]+\nx\ta\nq\t'\ne\t\"\n", vec!["xq", "xe"], vec![("ws", "[ ]+"), ("x", "a"), ("q", "'"), ("e", "\"")]),
        ("%{\n#include \"x.h\"\nint\ti;\n%}\n\n%option reentrant\n%option prefix=\"core_yy\"\n\n/*\n * text\n */\n%x xe\n%x xq\n\n", vec!["xe", "xq"], vec![]),
        ("ws\t\t\t[ \\t]\n/* c */\nlong_name2\t({ws}+{x})\nx\t\t[a-z]\n%x xq\n%x xe\n", vec!["xq", "xe"], vec![("ws", "[ \\t]"), ("long_name2", "({ws}+{x})"), ("x", "[a-z]")]),
        ("", vec![], vec![]),
    ];
    let n = pool.len() as u64;
    for k in 1..=max {
        c.par(&format!("scanner files with {k} pieces"), n.pow(k as u32) * heads.len() as u64, |i| {
            let (h, sts, defs) = &heads[(i % heads.len() as u64) as usize];
            let mut i = i / heads.len() as u64;
            let mut t = h.to_string() + "%%\n";
            let mut want: Vec<(Vec<String>, String, String)> = vec![];
            for _ in 0..k {
                let (p, r) = &pool[(i % n) as usize];
                i /= n;
                t += p;
                want.extend(r.iter().map(|(s, p, a)| (s.iter().map(|x| x.to_string()).collect(), p.to_string(), a.to_string())));
            }
            t += "%%\n\nrest\n";
            c.traces.fetch_add(1, Relaxed);
            c.states.fetch_add(1, Relaxed);
            c.transitions.fetch_add(k as u64, Relaxed);
            c.outcome(h64(&want));
            flex_file(c, &t, want, sts, defs);
        });
    }
}

pub fn check(c: &Ctx) {
    #[cfg(feature = "tables")]
    {
        layouts(c, true);
        contents(c, if c.quick { 2 } else { 3 });
        symbols(c);
        declarations(c, if c.quick { 4 } else { 5 });
        corners(c);
        growing(c);
    }
    #[cfg(feature = "flex")]
    {
        flex(c, if c.quick { 4 } else { 5 });
        flex_growing(c);
    }
}

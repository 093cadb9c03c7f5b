//! Properties of the scanner, observed in the trees and errors of `parse` (and, with the hooks, in
//! the raw token stream).
use crate::eng::*;
use crate::wb;

fn pick(c: &Ctx, quick: usize, thorough: usize) -> usize {
    if c.quick() {
        quick
    } else {
        thorough
    }
}

// ---------------------------------------------------------------- numbers

pub fn numbers(c: &Ctx, w: &World) -> ModelCounts {
    scanner_cover(c, w, &["INITIAL"], Aspect::Full);
    let alpha = ["0", "1", "8", "f", "_", ".", "x", "o", "b", "e", "+", "-", "a", " ", "E", "X"];
    let sp = Strs::new(&[("SELECT ", "")], &alpha, 1, pick(c, 5, 6));
    c.sweep(w, "literals", &sp, Aspect::Full);
    let sp = Strs::new(&[("SELECT ", " x"), ("SELECT 1", ""), ("SELECT a", ""), ("ALTER ROLE r CONNECTION LIMIT ", "")], &alpha, 1, pick(c, 4, 5));
    c.sweep(w, "literals in context", &sp, Aspect::Full);
    let sp = Strs::new(
        &[("SELECT ", ""), ("SELECT 1", ""), ("SELECT 0x", ""), ("SELECT .", "")],
        &["0", "9", "7", "2", "B", "O", "_", ".", "..", "$", "$1", "é", "F", "g", ",", "::", "/**/", "\n"],
        1,
        pick(c, 4, 5),
    );
    c.sweep(w, "junk after literals", &sp, Aspect::Full);
    wb::sweep_tokens(
        c,
        w,
        "number alphabet",
        &Strs::new(&[("", "")], &["0", "1", "8", "f", "_", ".", "x", "o", "b", "e", "+", "$"], 1, pick(c, 5, 6)),
        false,
    );
    // values around the 32-bit boundary in every radix, with every single separator, leading zeros
    let mut texts = vec![];
    for radix in [2u32, 8, 10, 16] {
        let mut vals: Vec<u128> = vec![0, 1, 7, 8, 9, 10, 15, 16, 99, 100];
        for p in [7u32, 8, 15, 16, 30, 31, 32, 33, 53, 62, 63, 64, 65, 100] {
            for d in -2i128..=2 {
                vals.push(((1i128 << p) + d) as u128);
            }
        }
        vals.push(10u128.pow(9));
        vals.push(10u128.pow(10));
        vals.push(9_999_999_999);
        for v in vals {
            let mut digits = String::new();
            let mut x = v;
            loop {
                digits.insert(0, std::char::from_digit((x % radix as u128) as u32, radix).unwrap());
                x /= radix as u128;
                if x == 0 {
                    break;
                }
            }
            for zeros in ["", "0", "00000000000"] {
                let ds = format!("{zeros}{digits}");
                let mut forms = vec![ds.clone(), ds.to_uppercase()];
                for k in 1..ds.len().min(14) {
                    forms.push(format!("{}_{}", &ds[..k], &ds[k..]));
                }
                for f in forms {
                    let prefixes: &[&str] = match radix {
                        2 => &["0b", "0B", "0b_"],
                        8 => &["0o", "0O", "0o_"],
                        16 => &["0x", "0X", "0x_"],
                        _ => &[""],
                    };
                    for p in prefixes {
                        for suffix in ["", ".", "..2", "e1", "x"] {
                            texts.push(format!("SELECT {p}{f}{suffix}"));
                        }
                        texts.push(format!("SELECT -{p}{f}"));
                        texts.push(format!("SELECT ${p}{f}"));
                        texts.push(format!("SELECT * FROM t LIMIT {p}{f} OFFSET 1"));
                        texts.push(format!("SELECT a[{p}{f}:2] FROM t"));
                        texts.push(format!("SELECT 1::varchar({p}{f})"));
                        // a place that takes integer constants only: the error tells the kind
                        for suffix in ["", "..", "..2", ".", ";"] {
                            texts.push(format!("ALTER ROLE r CONNECTION LIMIT {p}{f}{suffix}"));
                        }
                    }
                }
            }
        }
    }
    texts.sort();
    texts.dedup();
    c.sweep_list(w, "boundary values", &texts, Aspect::Full);
    // literals of every length: leading zeros before the values around the limit, one digit repeated,
    // separators between all digits, long fractions and exponents
    let mut texts = vec![];
    let lens: Vec<usize> = (1..=140).chain([199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 65535, 65536, 65537]).collect();
    for n in lens {
        let mut lits: Vec<String> = vec![];
        for (prefix, vals) in [
            ("", &["0", "1", "2147483647", "2147483648", "9"][..]),
            ("0x", &["0", "7fffffff", "80000000", "f"]),
            ("0o", &["0", "17777777777", "20000000000", "7"]),
            ("0b", &["0", "1111111111111111111111111111111", "10000000000000000000000000000000", "1"]),
        ] {
            for v in vals {
                if v.len() <= n {
                    let z = format!("{}{v}", "0".repeat(n - v.len()));
                    let apart: String = z.chars().enumerate().map(|(i, x)| if i > 0 { format!("_{x}") } else { x.to_string() }).collect();
                    lits.extend([format!("{prefix}{z}"), format!("{prefix}{apart}")]);
                }
            }
            let d = vals.last().unwrap().repeat(n);
            lits.push(format!("{prefix}{d}"));
        }
        let (z, d) = ("0".repeat(n), "9".repeat(n));
        for x in [&z, &d] {
            lits.extend([format!("1.{x}"), format!(".{x}"), format!("{x}."), format!("1e{x}"), format!("1.5e-{x}"), format!("{x}.{x}e{x}")]);
            lits.extend([format!("${x}"), format!("${x}1"), format!("{x}x"), format!("{x}..{x}"), format!("1e{x}x"), format!("1_{x}_")]);
        }
        for l in lits {
            texts.push(format!("SELECT {l}"));
            if n <= 1025 {
                texts.push(format!("ALTER ROLE r CONNECTION LIMIT {l}"));
                texts.push(format!("SELECT {l}, {l} +{l}"));
            }
        }
    }
    c.sweep_list(w, "literals of every length", &texts, Aspect::Full);
    far(
        c,
        w,
        &["1", "2147483647", "2147483648", "0x7fffffff", "0x80000000", "0b1", "0o17", "1..2", "1_000", "1.5e3", ".5", "1.", "$12", "1e"],
        Aspect::Full,
    );
    ModelCounts::Parser
}

// ---------------------------------------------------------------- quoted constructs

pub fn strings(c: &Ctx, w: &World) -> ModelCounts {
    // the recorded finding: PostgreSQL rejects this, the model of the scanner leaves it out
    if matches!(w.sut.parse("SELECT U&'\\zzzz'"), refpg::driver::Outcome::Tree(_)) {
        c.known("SELECT U&'\\zzzz' is accepted (the escapes in U& constructs are not checked)");
    }
    scanner_cover(c, w, &["xb", "xh", "xq", "xqs", "xe", "xeu", "xus", "xd", "xui", "xdolq"], Aspect::Full);
    let body = ["'", "\"", "\\", "\n", "\r", " ", "a", "1", "$", "é", "--", ";"];
    let opens = ["'", "e'", "E'", "U&'", "u&'", "b'", "B'", "x'", "X'", "n'", "N'", "\"", "U&\"", "$$", "$a$", "$é$"];
    let mut ctx: Vec<(String, String)> = vec![];
    for o in opens {
        ctx.push((format!("SELECT {o}"), String::new()));
        let close = match o {
            "$$" | "$a$" | "$é$" => o,
            o if o.ends_with('"') => "\"",
            _ => "'",
        };
        ctx.push((format!("SELECT {o}"), format!("{close} x")));
    }
    let mk = |ctx: &[(String, String)], a: &[&str], lo, hi| Strs {
        ctxs: ctx.to_vec(),
        alpha: a.iter().map(|s| s.to_string()).collect(),
        min: lo,
        max: hi,
    };
    c.sweep(w, "bodies", &mk(&ctx, &body, 0, pick(c, 4, 5)), Aspect::Full);
    let rare: Vec<&str> = vec!["'", "\t", "\x0b", "\x0c", "\x7f", "\x01", "𝄞", "漢", "/*", "*/", "a", "\\'", "''", "$a$", "\n"];
    c.sweep(w, "rare characters", &mk(&ctx, &rare, 1, pick(c, 3, 4)), Aspect::Full);
    // single characters: every ASCII character and samples of each UTF-8 length, alone and escaped
    let mut texts = vec![];
    for ch in (1u32..=0x17f).chain([0x7ff, 0x800, 0xfff, 0x2028, 0xd7ff, 0xe000, 0xfeff, 0xffff, 0x10000, 0x1f600, 0x10ffff]) {
        let ch = char::from_u32(ch).unwrap();
        for (a, b) in &ctx {
            for pre in ["", "\\", "a", "'", "é", "\\1", "\\x"] {
                for post in ["", "a", "'"] {
                    texts.push(format!("{a}{pre}{ch}{post}{b}"));
                }
            }
        }
    }
    c.sweep_list(w, "single characters", &texts, Aspect::Full);
    // extended strings
    let esc = [
        "\\u", "\\U", "D800", "DBFF", "DC00", "DFFF", "0000", "0041", "FFFF", "0010", "0011", "1", "\\", "'", "g", "é",
        "\\n", "\\x4", "\\10", "\n",
    ];
    c.sweep(
        w,
        "unicode escapes",
        &Strs::new(&[("SELECT e'", ""), ("SELECT E'a", "' x")], &esc, 1, pick(c, 4, 5)),
        Aspect::Full,
    );
    // two complete escapes from boundary values
    let mut texts = vec![];
    let v4 = ["0000", "0001", "007f", "d7ff", "d800", "D9ab", "dbff", "dc00", "DFFF", "e000", "ffff"];
    let v8: Vec<String> = ["0000", "0001", "0010", "0011", "ffff", "8000"]
        .iter()
        .flat_map(|h| v4.iter().map(move |l| format!("{h}{l}")))
        .collect();
    let all: Vec<String> =
        v4.iter().map(|v| format!("\\u{v}")).chain(v8.iter().map(|v| format!("\\U{v}"))).collect();
    for a in &all {
        for sep in ["", "a", "\\", "\\n", "'\n'", "'"] {
            texts.push(format!("SELECT e'{a}{sep}'"));
            for b in &all {
                texts.push(format!("SELECT e'{a}{sep}{b}'"));
            }
        }
    }
    for v in ["0", "00", "004", "0041", "00410", "g041", "004g", "D80", "é041"] {
        for u in ["\\u", "\\U", "\\U0000", "\\uD800\\u", "\\uD800\\U", "\\ud800\\U0000"] {
            for post in ["", "'", " '", "\\u0041'"] {
                texts.push(format!("SELECT e'{u}{v}{post}"));
            }
        }
    }
    c.sweep_list(w, "pairs of unicode escapes", &texts, Aspect::Full);
    // dollar quoting
    c.sweep(
        w,
        "dollar quoting",
        &Strs::new(
            &[("SELECT ", "")],
            &["$", "$$", "$a$", "$b$", "a", "b", "1", "\n", "'", "é", " ", "$é$", "$A$", "_"],
            1,
            pick(c, 5, 6),
        ),
        Aspect::Full,
    );
    c.sweep_list(w, "tags of dollar quoting", &dollar_tags(), Aspect::Full);
    // continuation over lines
    let cont = [
        "'a'", "'", "\n", "\r", " ", "\t", "\x0c", "\x0b", "--c\n", "/*c*/", "e'b'", "b'1'", "x'1'", "\"q\"", ";", "U&'u'",
    ];
    let ctx = [
        ("SELECT 'x'", ""),
        ("SELECT E'x'", ""),
        ("SELECT b'1'", ""),
        ("SELECT x'1'", ""),
        ("SELECT U&'x'", ""),
        ("SELECT n'x'", ""),
        ("SELECT \"x\"", ""),
        ("SELECT $$x$$", ""),
    ];
    c.sweep(w, "continuation", &Strs::new(&ctx, &cont, 1, pick(c, 4, 5)), Aspect::Full);
    // prefixes
    c.sweep(
        w,
        "prefixes",
        &Strs::new(
            &[("SELECT ", "")],
            &["u", "U", "&", "e", "E", "b", "B", "x", "X", "n", "N", "'", "\"", "a", "1", " ", "''", "\\", "$"],
            1,
            pick(c, 4, 5),
        ),
        Aspect::Full,
    );
    wb::sweep_tokens(
        c,
        w,
        "quotes",
        &Strs::new(
            &[("", "")],
            &["'", "e'", "U&'", "b'", "x'", "n'", "\"", "U&\"", "$$", "$a$", "\\", "\n", " ", "a", "1", "\\u0041", "--", "/*"],
            1,
            pick(c, 4, 5),
        ),
        false,
    );
    // sizes
    let mut texts = vec![];
    for n in (0usize..=140).chain([199, 200, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]) {
        let a = "a".repeat(n);
        for t in [
            format!("SELECT '{a}'"),
            format!("SELECT e'{a}\\n'"),
            format!("SELECT \"{a}\" FROM t"),
            format!("SELECT $t${a}$t$"),
            format!("SELECT ${a}$x${a}$"),
            format!("SELECT {a} FROM t"),
            format!("SELECT U&'{a}'"),
            format!("SELECT {}", "'a'\n".repeat(n.min(5000))),
            format!("SELECT '{}'", "''".repeat(n)),
            format!("SELECT e'{}'", "\\'".repeat(n)),
            format!("SELECT e'{}'", "\\u0041".repeat(n.min(5000))),
            format!("SELECT '{}'", "é".repeat(n)),
            format!("SELECT $a${}$a$", "$".repeat(n)),
            format!("SELECT $a${}$a$", "$a".repeat(n)),
            format!("SELECT $aa${}$aa$", "$a$".repeat(n.min(5000))),
            format!("SELECT b'{}'", "10".repeat(n)),
            format!("SELECT x'{}' x", "f0".repeat(n)),
            format!("SELECT \"{}\" FROM t", "\"\"".repeat(n)),
            format!("SELECT U&\"{a}\" FROM t"),
            format!("SELECT n'{a}"),
            format!("SELECT '{}'", "\n".repeat(n)),
            format!("SELECT 'a'{}'b'", "\n".repeat(n)),
            format!("SELECT 'a'{}\n'b'", " ".repeat(n)),
            format!("SELECT e'{}\\uD83D'", "é".repeat(n)),
            format!("SELECT ${a}$x${a}b$ ${a}$"),
        ] {
            texts.push(t);
        }
    }
    c.sweep_list(w, "sizes", &texts, Aspect::Full);
    far(
        c,
        w,
        &["'a'\n'b'", "'a''b'", "e'\\u0041\\''", "e'\\uD83D\\uDE00'", "$q$ $$ $q1$ $q$", "U&'d'", "n'n'", "b'1'\n'0'", "x'1f'", "\"a\"\"b\"", "U&\"é\"", "'open", "$a$ $b$"],
        Aspect::Full,
    );
    c.sweep_list(w, "every character", &every_char(c.quick()), Aspect::Full);
    ModelCounts::Parser
}

// ---------------------------------------------------------------- comments and white space

pub fn comments(c: &Ctx, w: &World) -> ModelCounts {
    scanner_cover(c, w, &["INITIAL", "xc"], Aspect::Full);
    let a = ["/*", "*/", "/", "*", "--", "-", "\n", "\r", " ", "a", "'", "\"", "$$", "é", ";", "+"];
    let ctx = [("", ""), ("SELECT 1 ", ""), ("SELECT 1/*", ""), ("SELECT 1--", ""), ("SELECT 1 ", " 2")];
    c.sweep(w, "mixed", &Strs::new(&ctx, &a, 0, pick(c, 4, 5)), Aspect::Full);
    c.sweep(
        w,
        "nesting",
        &Strs::new(&[("SELECT 1 /*", ""), ("SELECT 1 /*", " */, 2")], &["/*", "*/", "/", "*", "a"], 0, pick(c, 7, 9)),
        Aspect::Full,
    );
    c.sweep(
        w,
        "line comments",
        &Strs::new(&[("SELECT 1 --", ""), ("SELECT 1 --", "\n, 2")], &["\n", "\r", "-", "--", "a", "/*", "*/", "'", "é", "\t", "\x0c"], 0, pick(c, 5, 6)),
        Aspect::Full,
    );
    c.sweep(
        w,
        "operators and comments",
        &Strs::new(&[("SELECT 1", "1"), ("SELECT ", "")], &["+", "-", "*", "/", "/*", "*/", "--", "\n", "@", "1"], 0, pick(c, 5, 6)),
        Aspect::Full,
    );
    // white space: every ASCII control character and Unicode blanks between tokens
    let mut blanks: Vec<String> = (1u8..=0x20).chain([0x7f]).map(|b| (b as char).to_string()).collect();
    for u in ["\u{a0}", "\u{85}", "\u{2003}", "\u{2028}", "\u{3000}", "\u{feff}", "\u{200b}", "a"] {
        blanks.push(u.into());
    }
    let sp = Strs {
        ctxs: vec![("SELECT".into(), "1".into()), ("".into(), "SELECT 1".into()), ("SELECT 1".into(), "".into()), ("SELECT 1".into(), "--x".into()), ("SELECT 'a'".into(), "'b'".into())],
        alpha: blanks,
        min: 0,
        max: pick(c, 2, 3),
    };
    c.sweep(w, "white space", &sp, Aspect::Full);
    wb::sweep_tokens(c, w, "comment alphabet", &Strs::new(&[("", "")], &a, 0, pick(c, 5, 5)), false);
    let mut texts = vec![];
    for n in (0..300).chain([1000, 4095, 4096, 65535, 65536, 65537]) {
        // runs of operator characters are rescanned from each comment start (quadratic)
        if n <= 4096 {
            texts.push(format!("SELECT 1 {}{}", "/*".repeat(n), "*/".repeat(n)));
            texts.push(format!("SELECT 1 {}{}", "/*".repeat(n + 1), "*/".repeat(n)));
        }
        texts.push(format!("SELECT 1 {}{}, 2", "/* ".repeat(n), " */".repeat(n)));
        texts.push(format!("SELECT 1 {}{}, 2", "/* ".repeat(n + 1), " */".repeat(n)));
        texts.push(format!("SELECT 1 /*{}*/", "*".repeat(n)));
        texts.push(format!("SELECT 1 /*{}", "*".repeat(n)));
        texts.push(format!("SELECT 1 /{}/*a*/", "*".repeat(n + 1)));
        texts.push(format!("SELECT 1 --{}\n,2", "-".repeat(n)));
        texts.push(format!("SELECT 1{}", " ".repeat(n)));
        texts.push(format!("SELECT 1{}", "--\n".repeat(n)));
        texts.push(format!("{}SELECT 1", "/*a*/".repeat(n)));
    }
    c.sweep_list(w, "sizes", &texts, Aspect::Full);
    far(
        c,
        w,
        &["/* /* */ */ 1", "1 -- c\n, 2", "/**/1", "1 /*/ */", "1 /*", "1 /* /* */", "1 --", "1 - -- é\n- 1"],
        Aspect::Full,
    );
    c.sweep_list(w, "every character", &every_char(c.quick()), Aspect::Full);
    ModelCounts::Parser
}

// ---------------------------------------------------------------- operators

pub fn operators(c: &Ctx, w: &World) -> ModelCounts {
    scanner_cover(c, w, &["INITIAL"], Aspect::Full);
    let ops: Vec<&str> = vec![
        "~", "!", "@", "#", "^", "&", "|", "`", "?", "+", "-", "*", "/", "%", "<", ">", "=", ":", ".",
    ];
    c.sweep(
        w,
        "runs",
        &Strs::new(&[("SELECT 1 ", " 1"), ("SELECT 1", "1"), ("SELECT ", "")], &ops, 1, pick(c, 4, 4)),
        Aspect::Full,
    );
    let core = ["~", "+", "-", "*", "/", "<", ">", "=", "|"];
    c.sweep(
        w,
        "long runs",
        &Strs::new(&[("SELECT 1 ", " 1")], &core, 5, pick(c, 6, 7)),
        Aspect::Full,
    );
    c.sweep(
        w,
        "operators in other positions",
        &Strs::new(
            &[
                ("CREATE OPERATOR ", " (a = b)"),
                ("SELECT 1 OPERATOR(", ") 2"),
                ("SELECT 1 OPERATOR(s.", ") 2"),
                ("SELECT f(a ", " 1)"),
                ("SELECT a ", " ALL (SELECT 1)"),
                ("SELECT * FROM t ORDER BY a USING ", ""),
                ("CALL f(a ", ")"),
            ],
            &ops,
            1,
            pick(c, 3, 4),
        ),
        Aspect::Full,
    );
    c.sweep(
        w,
        "operators and neighbours",
        &Strs::new(
            &[("SELECT a", "b"), ("SELECT 1", "")],
            &["+", "-", "*", "<", "=", ">", ":", "::", ".", "..", "1", "a", " ", "\n", "'s'", "$1", "(", "]", ",", "~", "é"],
            1,
            pick(c, 4, 4),
        ),
        Aspect::Full,
    );
    wb::sweep_tokens(
        c,
        w,
        "operator alphabet",
        &Strs::new(&[("", "")], &["~", "!", "@", "#", "^", "&", "|", "`", "?", "+", "-", "*", "/", "%", "<", ">", "=", ":", ".", "1", " "], 1, pick(c, 4, 5)),
        false,
    );
    // sizes around the length limit, with every operator character as filler and as last character
    let mut texts = vec![];
    let oc = "~!@#^&|`?+-*/%<>=";
    for n in (2..=140).chain([199, 200, 255, 256, 257, 300, 512, 1000, 1024]) {
        for f in oc.chars() {
            for l in oc.chars() {
                for h in ["", "~", "<"] {
                    let run = format!("{h}{}{l}", f.to_string().repeat(n - 2));
                    texts.push(format!("SELECT 1 {run} 1"));
                    if n < 70 && n > 57 {
                        texts.push(format!("SELECT 1{run}--x"));
                        texts.push(format!("SELECT 1 {run}/*x*/ 1"));
                    }
                }
            }
        }
    }
    texts.sort();
    texts.dedup();
    c.sweep_list(w, "length limit", &texts, Aspect::Full);
    far(
        c,
        w,
        &["1 +-- c\n 2", "1 <> 2", "1 @-2", "1 *- 2", "1 *-2", "a::b", "f(a => 1, b := 2)", "1 !=-2", "1 +/* c */ 2", "1 >= 2", "1 -> 2"],
        Aspect::Full,
    );
    ModelCounts::Parser
}

// ---------------------------------------------------------------- identifiers and keywords

fn cases(word: &str) -> Vec<String> {
    let mut v = vec![word.to_string(), word.to_uppercase()];
    let alt = |p: usize| -> String {
        word.chars().enumerate().map(|(i, c)| if i % 2 == p { c.to_ascii_uppercase() } else { c }).collect()
    };
    v.push(alt(0));
    v.push(alt(1));
    // exactly one upper-case letter at each position
    for i in 0..word.len() {
        let mut s = word.to_string();
        s[i..i + 1].make_ascii_uppercase();
        v.push(s);
    }
    v.sort();
    v.dedup();
    v
}

pub const WORD_CTX: &[(&str, &str)] = &[
    ("", ""),
    ("SELECT ", ""),
    ("SELECT 1 ", ""),
    ("SELECT 1 AS ", ""),
    ("SELECT a.", ""),
    ("SELECT ", "(1)"),
    ("SELECT a::", ""),
    ("SELECT * FROM ", ""),
    ("SELECT * FROM t ", ""),
    ("SELECT * FROM t AS ", ""),
    ("SELECT * FROM ", "(1)"),
    ("CREATE TABLE ", " (a int)"),
    ("CREATE TABLE t (", " int)"),
    ("CREATE TABLE t (a ", ")"),
    ("CREATE FUNCTION ", "() RETURNS int AS 'x'"),
    ("SELECT a.", ".b FROM t"),
    ("ALTER TABLE t ", " x"),
    ("SELECT ", " 's'"),
    ("CREATE ROLE r ", ""),
    ("SET ", " = 1"),
    ("SET x = ", ""),
    ("GRANT ", " ON t TO u"),
    ("SELECT x ", " y"),
];

pub fn words(c: &Ctx, w: &World) -> ModelCounts {
    scanner_cover(c, w, &["INITIAL"], Aspect::Full);
    // every keyword, in every position and spelling
    let mut texts = vec![];
    for k in &w.r.kw.names {
        for (a, b) in WORD_CTX {
            let spellings =
                if *a == "SELECT 1 " || *a == "SELECT " || !c.quick() { cases(k) } else { vec![k.clone(), k.to_uppercase()] };
            for s in spellings {
                texts.push(format!("{a}{s}{b}"));
            }
            texts.push(format!("{a}\"{k}\"{b}"));
        }
    }
    c.sweep_list(w, "keywords", &texts, Aspect::Full);
    // near misses
    let mut texts = vec![];
    for k in &w.r.kw.names {
        let mut near = vec![];
        for x in ["_", "$", "1", "é", "a", "s", "\u{130}", "\u{17f}", "\u{212a}"] {
            near.push(format!("{k}{x}"));
            near.push(format!("{x}{k}"));
        }
        for i in 0..k.len() {
            near.push(format!("{}{}", &k[..i], &k[i + 1..])); // deletion
            near.push(k[..i].to_string()); // prefix
            if i > 0 {
                near.push(k[i..].to_string()); // suffix
                near.push(format!("{}_{}", &k[..i], &k[i..]));
                let mut b = k.as_bytes().to_vec();
                b.swap(i - 1, i);
                near.push(String::from_utf8(b).unwrap());
            }
            for (from, to) in [('s', "\u{17f}"), ('k', "\u{212a}"), ('i', "\u{131}"), ('i', "\u{130}"), ('e', "é"), ('_', "-")] {
                if k.as_bytes()[i] == from as u8 {
                    near.push(format!("{}{to}{}", &k[..i], &k[i + 1..]));
                }
            }
        }
        near.retain(|s| !s.is_empty());
        for s in near {
            for (a, b) in [("SELECT 1 AS x, ", ""), ("SELECT 1 ", ""), ("", ""), ("SELECT a::", " FROM t")] {
                texts.push(format!("{a}{s}{b}"));
            }
        }
    }
    texts.sort();
    texts.dedup();
    c.sweep_list(w, "near keywords", &texts, Aspect::Full);
    // identifier characters
    let mut chars: Vec<String> = (1u32..=0x7f).map(|c| char::from_u32(c).unwrap().to_string()).collect();
    for u in ["\u{80}", "\u{a0}", "é", "\u{7ff}", "\u{800}", "漢", "\u{ffff}", "\u{10000}", "😀", "\u{10ffff}"] {
        chars.push(u.into());
    }
    let sp = Strs {
        ctxs: vec![
            ("SELECT ".into(), "".into()),
            ("SELECT a".into(), "".into()),
            ("SELECT a".into(), "b".into()),
            ("SELECT é".into(), " FROM t".into()),
        ],
        alpha: chars.clone(),
        min: 1,
        max: pick(c, 2, 2),
    };
    c.sweep(w, "identifier characters", &sp, Aspect::Full);
    if !c.quick() {
        let sp = Strs { ctxs: vec![("SELECT ".into(), "".into())], alpha: chars, min: 3, max: 3 };
        c.sweep(w, "identifier characters (3)", &sp, Aspect::Full);
    }
    wb::sweep_tokens(
        c,
        w,
        "identifier alphabet",
        &Strs::new(&[("", "")], &["a", "Z", "_", "1", "$", "é", "漢", "\"", " ", ".", "as", "AS", "\u{a0}", "u&", "x'", "n'"], 1, pick(c, 4, 5)),
        false,
    );
    let mut texts = vec![];
    for n in (1usize..=140).chain([199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 4096, 65535, 65536, 65537]) {
        for s in ["a", "select", "é", "_", "a$", "A", "漢z", "K1"] {
            let id = s.repeat(n);
            texts.push(format!("SELECT {id} FROM t"));
            texts.push(format!("SELECT \"{id}\" FROM t"));
            texts.push(format!("SELECT 1 AS {id}"));
        }
    }
    c.sweep_list(w, "sizes", &texts, Aspect::Full);
    far(
        c,
        w,
        &["select", "a AS Select", "a AS \"select\"", "ABC_1$", "Äé.é", "a AS between", "current_user", "a AS current_uſer", "\"\"", "LIKE"],
        Aspect::Full,
    );
    c.sweep_list(w, "every character", &every_char(c.quick()), Aspect::Full);
    ModelCounts::Parser
}

// ---------------------------------------------------------------- lexical errors

pub const FRAGMENTS: &[&str] = &[
    // errors
    "'abc",
    "\"abc",
    "\"\"",
    "$$abc",
    "$é$ x",
    "/* abc",
    "/* /* */",
    "b'10",
    "x'1F",
    "e'abc",
    "e'\\u12'",
    "e'é\\uD80'",
    "e'\\uD800'",
    "e'\\uD800x",
    "e'\\uD800\\u12'",
    "e'\\uDC00'",
    "e'\\u0000'",
    "e'\\U00110000'",
    "U&'abc",
    "U&\"abc",
    "U&\"\"",
    "1a",
    "0x",
    "0o",
    "0b",
    "0b_",
    "1.5é",
    "1e+",
    "1__2",
    "~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~~",
    "\0",
    // harmless
    "SELECT",
    "1",
    ",",
    "é",
    "'é'",
    "-- c\n",
    "/* é */",
    ";",
    "\n",
    "{",
    "$1",
    "(",
    "漢\"x\"",
];

pub fn errors(c: &Ctx, w: &World) -> ModelCounts {
    scanner_cover(c, w, &["INITIAL", "xb", "xh", "xq", "xqs", "xe", "xeu", "xus", "xd", "xui", "xdolq", "xc"], Aspect::Error);
    let mk = |sep: &str, n: usize| Strs {
        ctxs: vec![("".into(), "".into()), ("SELECT 1, ".into(), "".into())],
        alpha: FRAGMENTS.iter().map(|f| format!("{f}{sep}")).collect(),
        min: 1,
        max: n,
    };
    c.sweep(w, "fragments with spaces", &mk(" ", pick(c, 3, 3)), Aspect::Error);
    c.sweep(w, "fragments on lines", &mk("\n", pick(c, 3, 3)), Aspect::Error);
    c.sweep(w, "adjacent fragments", &mk("", pick(c, 3, 3)), Aspect::Error);
    if !c.quick() {
        let mut sp = mk(" ", 4);
        sp.min = 4;
        sp.ctxs.truncate(1);
        c.sweep(w, "four fragments", &sp, Aspect::Error);
    }
    // unterminated constructs over every small body
    let ctx: Vec<(String, String)> = ["'", "e'", "U&'", "b'", "x'", "\"", "U&\"", "$$", "$q$", "/*", "n'"]
        .iter()
        .flat_map(|o| ["SELECT ", "é ", ""].iter().map(move |p| (format!("{p}{o}"), String::new())))
        .collect();
    let sp = Strs {
        ctxs: ctx,
        alpha: ["'", "\"", "\\", "$", "*/", "/*", "\n", "a", "é", " "].iter().map(|s| s.to_string()).collect(),
        min: 0,
        max: pick(c, 4, 5),
    };
    c.sweep(w, "unterminated", &sp, Aspect::Error);
    // Unicode escapes cut off at every byte
    let mut texts = vec![];
    for full in ["e'\\u0041\\U0001F600\\uD83D\\uDE00'", "e'ab\\uD83D\\U0000DE00é\\u00e9'", "e'\\\\\\'\\n\\u0041'"] {
        for pre in ["SELECT ", "SELECT 'é', ", "/*漢*/ SELECT 1 AS é, ", "", "SELECT a FROM t WHERE é = "] {
            for cut in 0..=full.len() {
                if full.is_char_boundary(cut) {
                    for post in ["", "'", "g'", "\\'", "\\", "é", "\n'", "0", "\\u"] {
                        texts.push(format!("{pre}{}{post}", &full[..cut]));
                    }
                }
            }
        }
    }
    c.sweep_list(w, "cut escapes", &texts, Aspect::Error);
    // far into the text
    let mut texts = vec![];
    for f in super::tree::far_prefixes(c.quick()) {
        for t in ["'", "SELECT \"", "SELECT e'\\uD800'", "/*", "SELECT 0x", "$q$é", "SELECT \"\"", "SELECT 1a", "b'", "SELECT e'\\u12'", "é U&\"x"] {
            texts.push(format!("{f}{t}"));
        }
        texts.push(format!("SELECT '{f}"));
        texts.push(format!("SELECT e'{f}\\U00110000'"));
        texts.push(format!("$é$ {f}"));
        texts.push(format!("SELECT 1a{f}"));
    }
    c.sweep_list(w, "far into the text", &texts, Aspect::Error);
    c.sweep_list(w, "errors at every distance", &distances(c.quick()), Aspect::Error);
    c.sweep_list(w, "every character", &every_char(c.quick()), Aspect::Error);
    ModelCounts::Parser
}

/// errors (of the scanner and of the parser) at every distance from the beginning of the text, of a line
/// and of the construct they stand in, over one-byte and wide characters
pub fn distances(quick: bool) -> Vec<String> {
    let mut texts = vec![];
    let top = if quick { 140 } else { 600 };
    for n in (0usize..=top).chain([199, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097]) {
        for u in ["a", "é", "漢", "😀"] {
            let x = u.repeat(n);
            for (o, e) in [("'", ""), ("\"", ""), ("$$", ""), ("/*", ""), ("b'", ""), ("x'", ""), ("e'", "\\u12'"), ("e'", "\\uD800x'"), ("e'", "\\U00110000'"), ("e'", "\\u0000'"), ("e'", "\\"), ("U&'", ""), ("$q$", "$Q$"), ("'", "''")] {
                texts.push(format!("SELECT {o}{x}{e}"));
            }
            // an error behind a complete construct
            for t in [format!("'{x}'"), format!("\"_{x}\""), format!("1 /*{x}*/"), format!("1 --{x}\n"), format!("e'{x}\\n'"), format!("$q${x}$q$"), format!("_{x}")] {
                for e in [" )", ", '", ", e'\\u12'", ", 1a", ", \"\"", " select", ""] {
                    texts.push(format!("SELECT {t}{e}"));
                }
            }
        }
        for u in [" ", "\n", "\r\n", "\t", "a,", "1,", "(", "x.", ";", "/**/", "-"] {
            let x = u.repeat(n);
            for e in [")", "'", "e'\\u12'", "1a", "é)", "\"\"", "from from", "/*"] {
                texts.push(format!("SELECT {x}{e}"));
            }
        }
    }
    texts
}

// ---------------------------------------------------------------- look-ahead

pub fn lookahead(c: &Ctx, w: &World) -> ModelCounts {
    let p: Vec<&str> = vec![
        "not ", "NOT/*c*/", "between ", "in ", "like ", "ilike ", "similar to ", "nulls ", "nulls--c\n", "first ", "last ",
        "with ", "time ", "ordinality ", "without ", "format ", "json ", "a ", "1 ", ", ", "and ", "(1) ", "zone ",
    ];
    let ctx = [
        ("", ""),
        ("SELECT a ", ""),
        ("SELECT 1 FROM t ORDER BY a ", ""),
        ("SELECT a::time ", ""),
        ("SELECT * FROM f() ", ""),
        ("CREATE TABLE t (a timestamp ", ")"),
        ("SELECT json_object('a' ", ")"),
        ("CREATE VIEW v AS SELECT 1 ", ""),
    ];
    c.sweep(w, "sequences", &Strs::new(&ctx, &p, 1, pick(c, 3, 4)), Aspect::Full);
    // token stream of all sequences of triggering and related keywords, with every kind of gap
    let words = [
        "not", "between", "in", "like", "ilike", "similar", "nulls", "first", "last", "with", "time", "ordinality", "without",
        "format", "json", "is", "null", "a", "'s'", "1", "(", "\"in\"", "U&'x'", "U&\"y\"",
    ];
    let gaps = [" ", "/*c*/", " --c\n", " /*a*/ /*b*/\n"];
    let alpha: Vec<String> = words.iter().flat_map(|x| gaps.iter().map(move |g| format!("{x}{g}"))).collect();
    let sp = Strs { ctxs: vec![("".into(), "".into())], alpha, min: 1, max: 3 };
    if wb::ON {
        if c.quick() {
            wb::sweep_tokens(c, w, "trigger sequences", &sp, true);
        } else {
            let mut sp4 = Strs::new(&[("", "")], &words.map(|x| x), 4, 4);
            for a in sp4.alpha.iter_mut() {
                a.push(' ');
            }
            wb::sweep_tokens(c, w, "trigger sequences", &sp, true);
            wb::sweep_tokens(c, w, "trigger sequences (4)", &sp4, true);
        }
    }
    // every pair (trigger, any terminal) behind every state that accepts the trigger
    let cov = w.cover();
    let g = &w.r.g;
    let kw = |s: &str| g.id(s).unwrap() as usize;
    let trig = [
        ("NOT", "NOT_LA"),
        ("NULLS_P", "NULLS_LA"),
        ("WITH", "WITH_LA"),
        ("WITHOUT", "WITHOUT_LA"),
        ("FORMAT", "FORMAT_LA"),
    ];
    let mut texts = vec![];
    for (a, b) in trig {
        let next: Vec<&str> = match a {
            "NOT" => vec!["between", "in", "like", "ilike", "similar", "null", "a", "not", "exists", "deferrable", ""],
            "NULLS_P" => vec!["first", "last", "a", "not", "distinct", ",", ""],
            "WITH" => vec!["time", "ordinality", "a", "(", "timestamp", "check", "ties", ""],
            "WITHOUT" => vec!["time", "a", "ordinality", "unique", "timestamp", ""],
            _ => vec!["json", "a", "'x'", ",", "jsonb", ""],
        };
        for s in 0..w.r.t.nstates {
            if w.r.t.act(s, kw(a)) == 0 && w.r.t.act(s, kw(b)) == 0 {
                continue;
            }
            let Some(p) = cov.prefix(s) else { continue };
            let word = cov.render(&[kw(a) as u16]);
            for n in &next {
                for gap in [" ", " /*c*/ ", "--c\n"] {
                    texts.push(format!("{} {word}{gap}{n}", cov.render(&p)));
                    // followed by something that may complete it
                    if !n.is_empty() && gap == " " {
                        for tail in ["a", "(1)", "zone", "to 'x'", "1 and 2"] {
                            texts.push(format!("{} {word}{gap}{n} {tail}", cov.render(&p)));
                        }
                    }
                }
            }
        }
    }
    if c.quick() && texts.len() > 700_000 {
        // keep the plain gaps only
        texts.retain(|t| !t.contains("--c"));
    }
    c.sweep_list(w, "triggers behind every state", &texts, Aspect::Full);
    let long: Vec<String> =
        super::tree::long_gap_texts(c.quick()).into_iter().filter(|x| x.0 < 10).map(|x| x.1).collect();
    c.sweep_list(w, "long stretches of trivia", &long, Aspect::Full);
    far(
        c,
        w,
        &["a NOT IN (b)", "a NOT /*c*/ LIKE b", "NOT a", "a IS NOT NULL", "a ORDER BY a NULLS FIRST", "a::time WITH TIME ZONE", "a::time WITHOUT --c\n TIME ZONE", "json_object('a' FORMAT JSON)", "format, nulls", "a NOT"],
        Aspect::Full,
    );
    ModelCounts::Parser
}

// ------------------------------------------------- every transition of the scanner automata

const ACCESS: &str = include_str!("../../../data/scanner_access.txt");

/// Every character (quick: those up to U+33FF, the compatibility forms and a spread of the others) at
/// every kind of place.
pub fn every_char(quick: bool) -> Vec<String> {
    let ctx = [
        ("", ""),
        ("", "SELECT 1"),
        ("SELECT", "1"),
        ("SELECT ", " 1"),
        ("SELECT 1", ""),
        ("SELECT 1 ", ""),
        ("SELECT a", "b"),
        ("SELECT '", "'"),
        ("SELECT \"", "\""),
        ("SELECT 1 /*", "*/"),
        ("--", "\nSELECT 1"),
        ("SELECT 1 +", " 2"),
        ("SELECT $", "$ x $a$"),
        ("SELECT 1;", "SELECT 2"),
        ("SELECT e'\\", "'"),
        ("SELECT 'x'", "'y'"),
        ("SELECT 'x'\n", "'y'"),
        ("SELECT U&'", "'"),
    ];
    let all = (1u32..=0x10ffff).filter(|c| !quick || *c < 0x3400 || (0xf900..=0xffff).contains(c) || c % 1021 == 0 || c & 0xffff >= 0xfffe);
    let chars: Vec<char> = all.filter_map(char::from_u32).collect();
    let mut v = vec![];
    for ch in chars {
        for (a, b) in ctx.iter().take(if quick { ctx.len() } else { 8 }) {
            v.push(format!("{a}{ch}{b}"));
        }
    }
    v
}

/// Each part behind long stretches of everything: blanks, comments, strings, names, statements in front
/// of its statement, and many expressions in front of it in the statement.
pub fn far(c: &Ctx, w: &World, parts: &[&str], asp: Aspect) {
    let mut texts = vec![];
    for f in super::tree::far_prefixes(c.quick()) {
        // a prefix that ends with a statement or is no statement at all
        for p in parts {
            texts.push(format!("{f}SELECT {p}"));
            if !f.ends_with(';') && !f.ends_with("\n") {
                texts.push(format!("SELECT {p}\n{f}"));
            }
        }
    }
    let top = if c.quick() { 11 } else { 13 };
    for k in 5..=top {
        for n in [(1usize << k) - 1, 1 << k] {
            for p in parts {
                texts.push(format!("SELECT {}{p}", "1,".repeat(n)));
                texts.push(format!("SELECT {}1 AS x, {p}", "a AS b /*c*/ ,".repeat(n)));
            }
        }
    }
    c.sweep_list(w, "far into the text", &texts, asp);
}

/// one non-ASCII character for every lead byte and every continuation byte of UTF-8
pub fn wide() -> Vec<char> {
    let mut v = vec![];
    for lead in 0xC2u32..=0xDF {
        v.push(char::from_u32((lead & 0x1f) << 6 | (lead & 0x3f)).unwrap());
    }
    for lead in 0xE0u32..=0xEF {
        let c = (lead & 0xf) << 12 | if lead == 0xED { 0x10 } else { 0x25 } << 6 | (lead & 0x3f);
        v.push(char::from_u32(c).unwrap());
    }
    for lead in 0xF0u32..=0xF4 {
        let c = (lead & 7) << 18 | if lead == 0xF4 { 0x05 } else { 0x15 } << 12 | 0x2a << 6 | (lead & 0x3f);
        v.push(char::from_u32(c).unwrap());
    }
    for cont in 0x80u32..=0xBF {
        v.push(char::from_u32(3 << 6 | (cont & 0x3f)).unwrap());
    }
    v
}

fn access() -> Vec<(&'static str, String)> {
    ACCESS
        .lines()
        .map(|l| {
            let (st, a) = l.split_once('\t').unwrap();
            (st, a.replace("\\xe9", "é").replace("\\n", "\n").replace("\\\\", "\\"))
        })
        .collect()
}

/// text that leaves the scanner in a state
pub fn state_context(st: &str) -> &'static [&'static str] {
    match st {
        "INITIAL" => &["SELECT ", "SELECT 1 "],
        "xb" => &["SELECT b'"],
        "xh" => &["SELECT x'"],
        "xq" => &["SELECT '", "SELECT n'"],
        "xqs" => &["SELECT 'a'", "SELECT e'a'"],
        "xe" => &["SELECT e'"],
        "xeu" => &["SELECT e'\\uD83D"],
        "xus" => &["SELECT U&'"],
        "xd" => &["SELECT \""],
        "xui" => &["SELECT U&\""],
        "xdolq" => &["SELECT $$", "SELECT $a$", "SELECT $é$"],
        "xc" => &["SELECT 1 /*"],
        x => panic!("{x}"),
    }
}

/// every ASCII character, wide characters, nothing
fn one_char() -> Vec<String> {
    let mut chars: Vec<String> = (1u8..128).map(|b| (b as char).to_string()).collect();
    chars.extend(wide().iter().map(|c| c.to_string()));
    chars.push(String::new());
    chars
}

/// Dollar-quoted strings whose tags hold every character, at the beginning, inside and at the end
/// of the tag, closed by the same tag, a shorter, a longer and another one.
pub fn dollar_tags() -> Vec<String> {
    let mut v = vec![];
    for ch in one_char() {
        for t in [ch.clone(), format!("a{ch}"), format!("{ch}a"), format!("a{ch}b"), format!("é{ch}"), format!("{ch}{ch}"), format!("aaaaaaaa{ch}")] {
            v.push(format!("SELECT ${t}$ x ${t}$ b"));
            v.push(format!("SELECT ${t}$x${t}${t}$"));
            v.push(format!("SELECT $a${t}$ ${t}$a$"));
            v.push(format!("SELECT ${t}$ $$ $a$ ${t}b$ $a{t}$ '$ ${t}$"));
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn access_texts(sufs: &[&str]) -> Vec<String> {
    let mut v = vec![];
    for (st, a) in access() {
        for p in state_context(st) {
            for ch in one_char() {
                for s in sufs {
                    v.push(format!("{p}{a}{ch}{s}"));
                }
            }
        }
    }
    v
}

pub fn all_words(w: &World) -> &[String] {
    &w.r.kw.names
}

/// Every state of the scanner's automata (reached by its shortest access string), every byte as the
/// next one, and a set of continuations that tells the automaton's states apart.
pub fn scanner_cover(c: &Ctx, w: &World, states: &[&str], asp: Aspect) {
    let t = std::time::Instant::now();
    let mut jobs: Vec<(String, String)> = vec![];
    for (st, a) in access() {
        if states.contains(&st) {
            for p in state_context(st) {
                jobs.push((p.to_string(), a.clone()));
            }
        }
    }
    let chars = one_char();
    let sufs: &[&str] = &[
        "", "a", "1", "_", "'", "\"", " ", ".", "+", "-", "*/", "*", "/", "$", "=", ">", "\\", "\n", "&'d'", "e1", "0", "''", "$$", "$a$", "\n'b'",
        "1'", "é", "DE00'", "aaaaaaa'", " b", "' c", "\" c", "*/ c",
    ];
    let n = sufs.len() as u64;
    let m = chars.len() as u64;
    let tokens = std::sync::atomic::AtomicU64::new(0);
    c.par(w, jobs.len() as u64 * m * n, |i, acc| {
        let (p, a) = &jobs[(i / n / m) as usize];
        let (ch, suf) = (&chars[(i / n % m) as usize], sufs[(i % n) as usize]);
        if ch.is_empty() && suf.is_empty() && a.is_empty() {
            return;
        }
        c.judge(w, acc, &format!("{p}{a}{ch}{suf}"), asp);
        if wb::ON && p == "SELECT " {
            wb::judge_tokens(c, w, acc, &format!("{a}{ch}{suf}"), false);
            tokens.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        }
    });
    c.put("scanner_automaton_states", ACCESS.lines().filter(|l| states.contains(&l.split('\t').next().unwrap())).count() as u64);
    c.put("scanner_automaton_transition_texts", jobs.len() as u64 * m * n);
    println!("  scanner automaton cover: {} states in context, {} texts, {:.1}s", jobs.len(), jobs.len() as u64 * m * n, t.elapsed().as_secs_f64());
}

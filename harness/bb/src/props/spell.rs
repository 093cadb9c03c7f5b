//! Spellings: the same sentence with its tokens written in every way the scanner allows.
use super::grammar::rule_texts;
use crate::eng::*;
use refpg::lexer::Kind;

const IDENTS: &[&str] = &[
    "\"q\"", "U&\"u\"", "é", "a$1", "_", "A", "\"a\"\"b\"", "\"select\"", "漢字_2", "u&\"\\00e9\"", "\" \"", "abs1",
    "a123456789b123456789c123456789d123456789e123456789f123456789g1234", "\"x--/*'y\"", "U&\"é\"",
];
const STRINGS: &[&str] = &[
    "e'\\n'", "U&'s'", "$$d$$", "$q$ $ $qq$ $q$", "'a''b'", "'y'\n'z'", "''", "'é漢😀'", "'--'", "'/*'", "N's'", "E'\\''", "u&'\\0041'", "e'a'\n  'b'",
    "$é$;$é$", "'\\'", "'a' --c\n 'b'",
];
const ICONSTS: &[&str] = &["0x1F", "0o17", "0b1", "1_000", "0", "007", "2147483647", "0X_a"];
const FCONSTS: &[&str] = &["1.", ".5", "1e5", "99999999999", "1.5E-10", "1_0.2_5", "0x80000000", "2147483648"];
const BCONSTS: &[&str] = &["B'01'", "b''", "b'0'\n'1'", "b'2'"];
const XCONSTS: &[&str] = &["X'1f'", "x''", "x'a'\n'b'", "x'g'"];
const PARAMS: &[&str] = &["$12", "$0", "$2147483647"];
const OPS: &[&str] = &["||", "@", "|/", "!", "->>", "&", "#-", "<->", "@-", "?|", "~~*", "`", "=!="];
const NE: &[&str] = &["!="];

/// the other ways to write a token of the given kind
fn others(k: Kind, text: &str) -> Vec<String> {
    let v: &[&str] = match k {
        Kind::Ident | Kind::Uident => IDENTS,
        Kind::Sconst | Kind::Usconst => STRINGS,
        Kind::Iconst => ICONSTS,
        Kind::Fconst => FCONSTS,
        Kind::Bconst => BCONSTS,
        Kind::Xconst => XCONSTS,
        Kind::Param => PARAMS,
        Kind::Op => OPS,
        Kind::NotEquals => NE,
        Kind::Keyword(_) => {
            let mixed: String =
                text.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
            return vec![text.to_uppercase(), mixed];
        }
        _ => &[],
    };
    v.iter().map(|s| s.to_string()).collect()
}

/// All sentences with one token respelled, and each sentence with all its tokens respelled at once
/// in as many ways as there are spellings. `f` gets the plain and the respelled sentence.
pub fn spellings(c: &Ctx, w: &World, single: bool, f: impl Fn(&str, &str, &mut Acc) + Sync) {
    let t0 = std::time::Instant::now();
    let base = rule_texts(w);
    let n = std::sync::atomic::AtomicU64::new(0);
    c.par(w, base.len() as u64, |i, acc| {
        let text = &base[i as usize];
        let toks = w.r.scan(text).unwrap().0;
        let alts: Vec<Vec<String>> = toks
            .iter()
            .map(|t| {
                // after the look-ahead rewriting kinds are those of the rewritten token
                let s = &text[t.start..t.end];
                match w.r.kw.lookup(s.as_bytes()) {
                    Some(k) => others(Kind::Keyword(k), s),
                    None => others(t.kind, s),
                }
            })
            .collect();
        let terms: Vec<u16> = toks.iter().map(|t| w.r.term(t.kind)).collect();
        let put = |pick: &dyn Fn(usize) -> Option<usize>| -> String {
            let mut s = String::new();
            for (k, t) in toks.iter().enumerate() {
                if k > 0 {
                    s.push(' ');
                }
                match pick(k) {
                    Some(a) if !alts[k].is_empty() => s.push_str(&alts[k][a % alts[k].len()]),
                    _ => s.push_str(&text[t.start..t.end]),
                }
            }
            s
        };
        let go = |s: String, acc: &mut Acc| {
            // the respelled text is the same sentence for the model
            let same = w.r.scan(&s).is_ok_and(|(v, _)| v.len() == terms.len() && v.iter().zip(&terms).all(|(t, x)| w.r.term(t.kind) == *x));
            if !same {
                c.skipped.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                return;
            }
            n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            f(text, &s, acc);
        };
        let most = alts.iter().map(|a| a.len()).max().unwrap_or(0);
        for v in 0..most {
            go(put(&|k| Some(v + k)), acc);
        }
        if single {
            for k in 0..toks.len() {
                for v in 0..alts[k].len() {
                    go(put(&|j| (j == k).then_some(v)), acc);
                }
            }
        }
    });
    let n = n.into_inner();
    c.put("space:spellings", n);
    println!("  spellings: {n} texts, {:.1}s", t0.elapsed().as_secs_f64());
}

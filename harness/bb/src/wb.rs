//! White-box checks through the guarded hooks; everything here is confirmed through the public
//! API where that is possible.
use crate::eng::*;
use refpg::driver::Outcome;
use refpg::lexer::{self, Kind, Tok};

pub const ON: bool = cfg!(feature = "hooks");

pub fn kind_name(w: &World, text: &str, t: &Tok) -> String {
    match t.kind {
        Kind::Char(c) => format!("'{}'", c as char),
        Kind::Other => format!("'{}'", &text[t.start..t.end]),
        Kind::Keyword(k) => w.r.kw.tokens[k as usize].clone(),
        Kind::CComment => "C_COMMENT".into(),
        Kind::SqlComment => "SQL_COMMENT".into(),
        Kind::Usconst => "USCONST".into(),
        Kind::Uident => "UIDENT".into(),
        Kind::DotDot => "DOT_DOT".into(),
        Kind::ColonEquals => "COLON_EQUALS".into(),
        k => w.r.g.names[w.r.term(k) as usize].clone(),
    }
}

/// token stream of a text against the reference scanner; None when the hooks are off
#[cfg(feature = "hooks")]
pub fn judge_tokens(c: &Ctx, w: &World, acc: &mut Acc, text: &str, rewritten: bool) {
    use postgresql_cst_parser::verif_hooks as vh;
    let want = lexer::lex(&w.r.kw, text).map(|mut t| {
        if rewritten {
            w.r.la.apply(&mut t);
        }
        t.iter().map(|t| (kind_name(w, text, t), t.start, t.end)).collect::<Vec<_>>()
    });
    let got = std::panic::catch_unwind(|| refpg::watch::guard(text, || if rewritten { vh::scan_rewritten(text) } else { vh::scan(text) }));
    acc.evals += 1;
    let got = match got {
        Ok(Ok(t)) => Ok(t),
        Ok(Err(e)) => Err(crate::sut::error_outcome(e)),
        Err(_) => Err(Outcome::Panic("while scanning".into())),
    };
    let same = match (&want, &got) {
        (Ok(a), Ok(b)) => {
            acc.sigs.insert(crate::eng::h64(&a.iter().map(|t| &t.0).collect::<Vec<_>>()));
            a == b
        }
        (Err(a), Err(Outcome::Lex(b))) => {
            acc.sigs.insert(crate::eng::h64(&format!("{a:?}")));
            a == b
        }
        _ => false,
    };
    if same {
        return;
    }
    // the hook shows a difference: look for a text on which it is visible through parse
    let mut from = 0;
    if let (Ok(a), Ok(b)) = (&want, &got) {
        let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
        from = a.get(i).or(b.get(i)).map_or(0, |t| t.1);
    }
    let n0 = c.nviol.load(std::sync::atomic::Ordering::Relaxed);
    for body in [text, &text[from..]] {
        for (pre, post) in [("", ""), ("SELECT ", ""), ("SELECT 1 ", ""), ("SELECT 1 ", " 1"), ("SELECT a", ""), ("SELECT ", " FROM t"), ("SELECT 1 AS ", ""), ("SELECT (", ")"), ("SELECT * FROM ", ""), ("SELECT 1 WHERE a ", " b"), ("SELECT a ", " ALL (1)")] {
            c.judge(w, acc, &format!("{pre}{body}{post}"), Aspect::Full);
            if c.nviol.load(std::sync::atomic::Ordering::Relaxed) > n0 {
                return;
            }
        }
    }
    // the first token that differs, behind parser states that tell the two kinds apart
    if let (Ok(a), Ok(b)) = (&want, &got) {
        let at = a.iter().zip(b).find(|(x, y)| x != y);
        if let Some((x, y)) = at.and_then(|(x, y)| Some((w.r.g.id(&x.0)? as usize, w.r.g.id(&y.0)? as usize))) {
            let cov = w.cover();
            let apart = |s: &usize| (w.r.t.act(*s, x) == 0) != (w.r.t.act(*s, y) == 0);
            for s in (0..w.r.t.nstates).filter(apart).take(200) {
                let Some(p) = cov.prefix(s) else { continue };
                c.judge(w, acc, &format!("{} {}", cov.render(&p), &text[from..]), Aspect::Full);
                if c.nviol.load(std::sync::atomic::Ordering::Relaxed) > n0 {
                    return;
                }
            }
        }
    }
    c.unconfirmed(text, format!("{want:?}"), format!("{got:?}"));
}
#[cfg(not(feature = "hooks"))]
pub fn judge_tokens(_: &Ctx, _: &World, _: &mut Acc, _: &str, _: bool) {
    let _ = (lexer::lex, kind_name as fn(&World, &str, &Tok) -> String, Outcome::Syntax(0, 0));
}

/// raw token streams of all strings of a space (contexts ignored)
pub fn sweep_tokens(c: &Ctx, w: &World, name: &str, sp: &Strs, rewritten: bool) {
    if !ON {
        return;
    }
    let t = std::time::Instant::now();
    c.par(w, sp.len(), |i, acc| judge_tokens(c, w, acc, &sp.get(i), rewritten));
    c.put(&format!("tokens:{name}"), sp.len());
    println!("  tokens of {name}: {} texts, {:.1}s", sp.len(), t.elapsed().as_secs_f64());
}

/// Parse tables of a build of the parser, by syntax kind name
pub struct Tab {
    pub kind_names: Vec<String>,
    /// encoded as in the hooks: 0 error, s + 1 shift, -(r + 1) reduce, `i32::MAX` accept
    pub action: Vec<Vec<i32>>,
    pub goto: Vec<Vec<Option<u32>>>,
    /// left-hand side (raw kind) and length
    pub rules: Vec<(u32, usize)>,
}

impl Tab {
    #[cfg(feature = "hooks")]
    pub fn own(w: &World) -> Option<Tab> {
        use postgresql_cst_parser::verif_hooks as vh;
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let nt = vh::num_terminals();
            // symbols of the grammar come first, then comments, white space and the root
            let all = w.sut.kind_names.len() as u32;
            let ns = w.sut.kind_names.iter().position(|n| n == "C_COMMENT").map_or(all - 4, |i| i as u32);
            let st = vh::num_states() as u32;
            let action: Vec<Vec<i32>> = (0..st).map(|s| (0..nt).map(|x| vh::action(s, x)).collect()).collect();
            let top = action.iter().flatten().filter(|a| **a < 0).map(|a| -*a as usize).max().unwrap_or(0);
            Tab {
                kind_names: w.sut.kind_names.clone(),
                goto: (0..st).map(|s| (0..ns - nt).map(|x| vh::goto(s, x)).collect()).collect(),
                rules: (0..top).map(vh::rule).collect(),
                action,
            }
        }))
        .ok()
    }
    #[cfg(not(feature = "hooks"))]
    pub fn own(_: &World) -> Option<Tab> {
        None
    }

    pub fn write(&self, path: &str) {
        use std::fmt::Write;
        let mut o = String::new();
        writeln!(o, "{}", self.kind_names.join(" ")).unwrap();
        let mut row = |v: Vec<String>| writeln!(o, "{}", v.join(" ")).unwrap();
        row(self.rules.iter().flat_map(|(a, b)| [a.to_string(), b.to_string()]).collect());
        for (a, g) in self.action.iter().zip(&self.goto) {
            row(a.iter().map(|x| x.to_string()).collect());
            row(g.iter().map(|x| x.map_or("-".into(), |x| x.to_string())).collect());
        }
        std::fs::write(path, o).unwrap();
    }

    pub fn read(path: &str) -> Tab {
        let s = std::fs::read_to_string(path).unwrap();
        let mut it = s.lines();
        let kind_names = it.next().unwrap().split(' ').map(|x| x.to_string()).collect();
        let r: Vec<usize> = it.next().unwrap().split(' ').map(|x| x.parse().unwrap()).collect();
        let mut t = Tab { kind_names, action: vec![], goto: vec![], rules: r.chunks(2).map(|p| (p[0] as u32, p[1])).collect() };
        while let (Some(a), Some(g)) = (it.next(), it.next()) {
            t.action.push(a.split(' ').map(|x| x.parse().unwrap()).collect());
            t.goto.push(g.split(' ').map(|x| x.parse().ok()).collect());
        }
        t
    }
}

/// Bisimulation of the reference LALR automaton and a table: state pairs, entries, and the
/// differences with texts that should make them visible.
pub fn bisimulate_tab(c: &Ctx, w: &World, tab: &Tab, who: &str) -> Option<(u64, u64, Vec<(String, String)>)> {
    use std::collections::{HashMap, HashSet, VecDeque};
    let g = &w.r.g;
    let t = &w.r.t;
    // symbol of the reference -> raw kind of the implementation
    let kinds = w.sut.map_names(&tab.kind_names);
    let mut raw = vec![u32::MAX; g.names.len()];
    for (i, k) in kinds.iter().enumerate() {
        if (*k as usize) < raw.len() {
            raw[*k as usize] = i as u32;
        }
    }
    raw[0] = tab.kind_names.iter().position(|n| n == "Dollarend").map_or(u32::MAX, |i| i as u32);
    let nterm = tab.action[0].len() as u32;
    let body = std::panic::AssertUnwindSafe(|| {
        let mut seen: HashSet<(u32, u32)> = HashSet::new();
        let mut queue: VecDeque<(u32, u32)> = VecDeque::new();
        seen.insert((0, 0));
        queue.push_back((0, 0));
        let mut trans = 0u64;
        let mut diffs: Vec<(u32, u16, String)> = vec![];
        let mut unmapped: HashMap<u16, u64> = HashMap::new();
        while let Some((s, q)) = queue.pop_front() {
            for x in 0..g.nt {
                if raw[x] >= nterm {
                    *unmapped.entry(x as u16).or_default() += 1;
                    continue;
                }
                trans += 1;
                let a = t.act(s as usize, x);
                let b = tab.action[q as usize][raw[x] as usize];
                let same = match (a, b) {
                    (0, 0) => true,
                    (i32::MAX, i32::MAX) => true,
                    (a, b) if a > 0 && a < i32::MAX && b > 0 && b < i32::MAX => {
                        let p = (a as u32 - 1, b as u32 - 1);
                        if seen.insert(p) {
                            queue.push_back(p);
                        }
                        true
                    }
                    (a, b) if a < 0 && b < 0 => {
                        let r = &g.rules[(-a - 1) as usize];
                        let (lhs, len) = tab.rules[(-b - 1) as usize];
                        len == r.rhs.len() && kinds[lhs as usize] as usize == g.nt + r.lhs as usize
                    }
                    _ => false,
                };
                if !same {
                    diffs.push((s, x as u16, format!("reference action {a}, {who} {b}")));
                }
            }
            for n in 0..g.nn() {
                let d = t.go(s as usize, n);
                if d == u32::MAX || raw[g.nt + n] == u32::MAX {
                    continue;
                }
                trans += 1;
                match tab.goto[q as usize][(raw[g.nt + n] - nterm) as usize] {
                    Some(e) => {
                        if seen.insert((d, e)) {
                            queue.push_back((d, e));
                        }
                    }
                    None => diffs.push((s, (g.nt + n) as u16, "no goto".into())),
                }
            }
            if seen.len() > 200_000 {
                panic!("bisimulation does not close");
            }
        }
        (seen.len() as u64, trans, diffs, unmapped)
    });
    let (pairs, trans, diffs, unmapped) = std::panic::catch_unwind(body).ok()?;
    let exact = pairs == t.nstates as u64;
    println!(
        "  bisimulation of {who}: {pairs} state pairs ({}), {trans} entries, {} differences, unmapped {:?}",
        if exact { "one to one" } else { "not one to one" },
        diffs.len(),
        unmapped.keys().map(|k| &g.names[*k as usize]).collect::<Vec<_>>()
    );
    c.put("bisimulation_unmapped_terminals", unmapped.len() as u64);
    let cov = w.cover();
    let ine = cov.inedges();
    let mut found = vec![];
    for (s, x, what) in diffs.iter().take(400) {
        let name = format!("state {s}, {}: {what}", g.names[*x as usize]);
        if (*x as usize) < g.nt {
            let p = if t.act(*s as usize, *x as usize) != 0 {
                cov.find_prefix(*s as usize, *x as usize, &ine)
            } else {
                cov.prefix(*s as usize).map(|p| (p, vec![]))
            };
            if let Some((mut p, st)) = p {
                if *x > 0 && cov.renderable(*x) {
                    p.push(*x);
                    if !st.is_empty() {
                        p.extend(cov.complete(&st).unwrap_or_default());
                    }
                }
                found.push((cov.render(&p), name));
            }
        } else if let Some(mut p) = cov.prefix(*s as usize) {
            cov.expand(*x, &mut p);
            let mut st = vec![0];
            if cov.run(&mut st, &p) {
                p.extend(cov.complete(&st).unwrap_or_default());
            }
            found.push((cov.render(&p), name));
        }
    }
    if found.is_empty() && !diffs.is_empty() {
        c.note(format!("{} differences of {who} without a text; first: state {} {} {}", diffs.len(), diffs[0].0, g.names[diffs[0].1 as usize], diffs[0].2));
    }
    Some((pairs, trans, found))
}

/// Bisimulation of the reference LALR automaton and the tables of the implementation.
/// Every discrepancy found is turned into a text and confirmed through `parse`.
pub fn bisimulate(c: &Ctx, w: &World, asp: Aspect) -> Option<(u64, u64)> {
    if !ON {
        return None;
    }
    let Some((pairs, trans, found)) = Tab::own(w).and_then(|t| bisimulate_tab(c, w, &t, "the implementation")) else {
        c.note("white-box bisimulation not applicable to this tree (hooks answered out of range)");
        return None;
    };
    c.put("bisimulation_state_pairs", pairs);
    c.put("bisimulation_entries", trans);
    let mut acc = Acc::new(w);
    let before = c.nviol.load(std::sync::atomic::Ordering::Relaxed);
    for (text, what) in &found {
        let n0 = c.nviol.load(std::sync::atomic::Ordering::Relaxed);
        c.judge(w, &mut acc, text, asp);
        if c.nviol.load(std::sync::atomic::Ordering::Relaxed) > n0 {
            println!("    confirmed: {what}: {text:?}");
        }
    }
    c.merge(acc);
    let after = c.nviol.load(std::sync::atomic::Ordering::Relaxed);
    if !found.is_empty() && after == before {
        c.note(format!(
            "{} differences between the tables and the reference automaton have no effect visible through parse on the texts tried; first: {}",
            found.len(),
            found[0].1
        ));
    }
    Some((pairs, trans))
}

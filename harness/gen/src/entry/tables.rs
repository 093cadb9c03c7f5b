//! C19: the LALR(1) tables of all small grammars, uncompressed and compressed, against the reference
//! construction (bisimulation from the initial states).
use crate::parser_generator::verif_hooks as vh;
use super::report::{Ctx, h64};
use refpg::grammar::{Assoc, Grammar};
use refpg::lalr;
use std::collections::HashMap;
use std::sync::atomic::Ordering::Relaxed;

#[derive(Clone)]
pub struct Spec {
    /// grouped by left-hand side, start symbol first
    pub rules: Vec<(String, Vec<String>, Option<String>)>,
    pub prec: Vec<(Assoc, Vec<String>)>,
}

impl Spec {
    pub fn text(&self) -> String {
        let mut s = String::new();
        for (a, names) in &self.prec {
            s += match a {
                Assoc::Left => "%left",
                Assoc::Right => "%right",
                Assoc::Nonassoc => "%nonassoc",
            };
            for n in names {
                s += "\t";
                s += n;
            }
            s += "\n";
        }
        s += "%%\n";
        let mut i = 0;
        while i < self.rules.len() {
            let l = &self.rules[i].0;
            s += l;
            s += ":";
            let mut first = true;
            while i < self.rules.len() && self.rules[i].0 == *l {
                if !first {
                    s += "\n\t|";
                }
                first = false;
                for x in &self.rules[i].1 {
                    s += " ";
                    s += x;
                }
                if let Some(p) = &self.rules[i].2 {
                    s += " %prec ";
                    s += p;
                }
                i += 1;
            }
            s += "\n\t;\n";
        }
        s += "%%\n";
        s
    }
    pub fn model(&self) -> Grammar {
        let raw: Vec<(&str, Vec<&str>, Option<&str>)> = self
            .rules
            .iter()
            .map(|(l, r, p)| (l.as_str(), r.iter().map(|x| x.as_str()).collect(), p.as_deref()))
            .collect();
        let mut precs = vec![];
        for (i, (a, names)) in self.prec.iter().enumerate() {
            for n in names {
                precs.push((n.clone(), i as u32 + 1, *a));
            }
        }
        Grammar::build(&raw, raw[0].0, &precs)
    }
}

fn bare(s: &str) -> &str {
    s.trim_matches('\'')
}

/// (where two rules can be reduced on the same terminal, the order of the rules matters: the grammar
/// is then also tried with the rules in the opposite order)
fn judge(c: &Ctx, sp: &Spec) {
    if judge_one(c, sp) || !c.quick {
        let start = sp.rules[0].0.clone();
        let mut rev = sp.clone();
        rev.rules.reverse();
        rev.rules.sort_by_key(|r| r.0 != start);
        judge_one(c, &rev);
    }
}

fn judge_one(c: &Ctx, sp: &Spec) -> bool {
    if let Some(b) = &c.bison {
        return b.judge(sp);
    }
    let g = sp.model();
    let t = lalr::build(&g);
    let text = sp.text();
    let Ok(v) = std::panic::catch_unwind(|| refpg::watch::guard(&text, || vh::tables(&text, true))) else {
        c.violation(&text, "the generator panics".into());
        return t.rr_overlap > 0;
    };
    c.traces.fetch_add(1, Relaxed);
    c.outcome(h64(&t.action));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| refpg::watch::guard(&text, || compare(c, &g, &t, &v))));
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => c.violation(&text, e),
        Err(_) => c.violation(&text, "the tables lead out of range".into()),
    }
    t.rr_overlap > 0
}

fn compare(c: &Ctx, g: &Grammar, t: &lalr::Tables, v: &vh::Tables) -> Result<(), String> {
    let tidx: HashMap<&str, usize> = v.terminals.iter().enumerate().map(|(i, n)| (bare(n), i)).collect();
    let nidx: HashMap<&str, usize> = v.non_terminals.iter().enumerate().map(|(i, n)| (bare(n), i)).collect();
    if tidx.len() != v.terminals.len() || nidx.len() != v.non_terminals.len() {
        return Err("a symbol has two numbers".into());
    }
    let map: Vec<usize> = (0..g.names.len())
        .map(|x| {
            if x == 0 {
                v.end
            } else {
                *if x < g.nt { &tidx } else { &nidx }.get(bare(&g.names[x])).unwrap_or(&usize::MAX)
            }
        })
        .collect();
    if let Some(x) = map.iter().position(|m| *m == usize::MAX) {
        return Err(format!("the symbol {} is missing", g.names[x]));
    }
    let mut pair: Vec<Option<usize>> = vec![None; t.nstates];
    let mut back: HashMap<usize, usize> = HashMap::new();
    pair[0] = Some(0);
    back.insert(0, 0);
    let mut todo = vec![(0usize, 0usize)];
    let mut trans = 0;
    while let Some((s, q)) = todo.pop() {
        let mut next = vec![];
        for x in 0..g.nt {
            trans += 1;
            let want = t.act(s, x);
            for (kind, got) in [("", v.action(q, map[x])), ("compressed ", v.compressed_action(q, map[x]))] {
                let ok = match (want, got) {
                    (0, 0) | (i32::MAX, i32::MAX) => true,
                    (a, b) if a > 0 && b > 0 && a < i32::MAX && b < i32::MAX => {
                        next.push((a as usize - 1, b as usize - 1));
                        true
                    }
                    (a, b) if a < 0 && b < 0 => {
                        let r = &g.rules[(-a - 1) as usize];
                        let w = &v.rules[(-b - 1) as usize];
                        a == b && w.0 == g.names[g.nt + r.lhs as usize] && w.1 == r.rhs.len()
                    }
                    _ => false,
                };
                if !ok {
                    return Err(format!(
                        "{kind}action in the state behind {:?} on {}: expected {want}, got {got} (0 error, positive shift, negative reduce, {} accept)",
                        access(g, t, s),
                        g.names[x],
                        i32::MAX
                    ));
                }
            }
        }
        for n in 0..g.nn() {
            let d = t.go(s, n);
            if d == u32::MAX {
                continue;
            }
            trans += 1;
            for (kind, got) in [("", v.goto(q, map[g.nt + n])), ("compressed ", v.compressed_goto(q, map[g.nt + n]))] {
                match got {
                    Some(e) => next.push((d as usize, e)),
                    None => return Err(format!("no {kind}goto in the state behind {:?} on {}", access(g, t, s), g.names[g.nt + n])),
                }
            }
        }
        for (d, e) in next {
            match (pair[d], back.get(&e)) {
                (Some(x), _) if x == e => {}
                (None, None) => {
                    pair[d] = Some(e);
                    back.insert(e, d);
                    todo.push((d, e));
                }
                // states merged or split in another way: still the same parser if the bisimulation closes
                _ => {
                    return closes(c, g, t, v, &map);
                }
            }
        }
    }
    c.states.fetch_add(back.len() as u64, Relaxed);
    c.transitions.fetch_add(trans, Relaxed);
    Ok(())
}

/// general bisimulation on pairs
fn closes(c: &Ctx, g: &Grammar, t: &lalr::Tables, v: &vh::Tables, map: &[usize]) -> Result<(), String> {
    let mut seen = std::collections::HashSet::from([(0usize, 0usize)]);
    let mut todo = vec![(0usize, 0usize)];
    let mut trans = 0;
    while let Some((s, q)) = todo.pop() {
        let mut next = vec![];
        for x in 0..g.nt {
            trans += 1;
            let want = t.act(s, x);
            for got in [v.action(q, map[x]), v.compressed_action(q, map[x])] {
                match (want, got) {
                    (a, b) if a > 0 && b > 0 && a < i32::MAX && b < i32::MAX => next.push((a as usize - 1, b as usize - 1)),
                    (a, b) if a == b => {}
                    _ => return Err(format!("action in the state behind {:?} on {}: expected {want}, got {got}", access(g, t, s), g.names[x])),
                }
            }
        }
        for n in 0..g.nn() {
            let d = t.go(s, n);
            if d != u32::MAX {
                trans += 1;
                for got in [v.goto(q, map[g.nt + n]), v.compressed_goto(q, map[g.nt + n])] {
                    match got {
                        Some(e) => next.push((d as usize, e)),
                        None => return Err(format!("no goto in the state behind {:?} on {}", access(g, t, s), g.names[g.nt + n])),
                    }
                }
            }
        }
        for p in next {
            if seen.insert(p) {
                todo.push(p);
            }
        }
    }
    c.states.fetch_add(seen.len() as u64, Relaxed);
    c.transitions.fetch_add(trans, Relaxed);
    Ok(())
}

/// a shortest sequence of symbols leading to a state
fn access(g: &Grammar, t: &lalr::Tables, s: usize) -> String {
    let mut from: Vec<Option<(usize, usize)>> = vec![None; t.nstates];
    let mut q = std::collections::VecDeque::from([0usize]);
    while let Some(p) = q.pop_front() {
        for x in 0..g.names.len() {
            let d = if x < g.nt {
                let a = t.act(p, x);
                if a <= 0 || a == i32::MAX {
                    continue;
                }
                a as usize - 1
            } else {
                match t.go(p, x - g.nt) {
                    u32::MAX => continue,
                    d => d as usize,
                }
            };
            if d != 0 && from[d].is_none() {
                from[d] = Some((p, x));
                q.push_back(d);
            }
        }
    }
    let mut out = vec![];
    let mut s = s;
    while let Some((p, x)) = from[s] {
        out.push(g.names[x].clone());
        s = p;
    }
    out.reverse();
    out.join(" ")
}

/// every nonterminal is reachable and productive, every one has a rule
fn reduced(rules: &[(usize, Vec<usize>)], nn: usize) -> bool {
    // symbols: 0..nn nonterminals, the rest terminals
    let mut prod = vec![false; nn];
    let mut reach = vec![false; nn];
    reach[0] = true;
    loop {
        let mut ch = false;
        for (l, r) in rules {
            if !prod[*l] && r.iter().all(|x| *x >= nn || prod[*x]) {
                prod[*l] = true;
                ch = true;
            }
            if reach[*l] {
                for x in r {
                    if *x < nn && !reach[*x] {
                        reach[*x] = true;
                        ch = true;
                    }
                }
            }
        }
        if !ch {
            break;
        }
    }
    prod.iter().all(|x| *x) && reach.iter().all(|x| *x)
}

/// number of k-subsets and the i-th of them
fn choose(n: u64, k: u64) -> u64 {
    (0..k).fold(1, |a, i| a * (n - i) / (i + 1))
}
pub fn subset(n: u64, k: u64, mut i: u64) -> Vec<usize> {
    let mut out = vec![];
    let mut k = k;
    let mut x = 0;
    while k > 0 {
        let c = choose(n - x - 1, k - 1);
        if i < c {
            out.push(x as usize);
            k -= 1;
        } else {
            i -= c;
        }
        x += 1;
    }
    out
}

/// all grammars with nn nonterminals, the given terminals, right-hand sides up to a length, k rules
fn structural(c: &Ctx, nn: usize, terms: &[&str], len: usize, k: u64) {
    let syms = nn + terms.len();
    let mut rhs: Vec<Vec<usize>> = vec![vec![]];
    let mut last = rhs.clone();
    for _ in 0..len {
        last = last.iter().flat_map(|r| (0..syms).map(move |x| [r.clone(), vec![x]].concat())).collect();
        rhs.extend(last.clone());
    }
    let prods: Vec<(usize, Vec<usize>)> = (0..nn).flat_map(|l| rhs.iter().map(move |r| (l, r.clone()))).collect();
    let names: Vec<String> = (0..nn).map(|i| ["S", "A", "B", "C"][i].to_string()).chain(terms.iter().map(|t| t.to_string())).collect();
    let n = prods.len() as u64;
    let label = format!("grammars with {nn} nonterminals, {} terminals, {k} rules of length up to {len}", terms.len());
    c.par(&label, choose(n, k), |i| {
        let rs: Vec<(usize, Vec<usize>)> = subset(n, k, i).into_iter().map(|j| prods[j].clone()).collect();
        if rs[0].0 != 0 || !reduced(&rs, nn) {
            c.skipped.fetch_add(1, Relaxed);
            return;
        }
        let sp = Spec {
            rules: rs
                .iter()
                .map(|(l, r)| (names[*l].clone(), r.iter().map(|x| names[*x].clone()).collect(), None))
                .collect(),
            prec: vec![],
        };
        if i % (choose(n, k) / 3 + 1) == 1 {
            c.sample(&sp.text());
        }
        judge(c, &sp);
    });
}

/// operator grammars with precedence declarations
fn operators(c: &Ctx, max: u64) {
    let (a, b, u) = ("'+'", "OR", "UMINUS");
    let shapes: Vec<Vec<&str>> = vec![
        vec!["E", a, "E"],
        vec!["E", b, "E"],
        vec![a, "E"],
        vec![b, "E"],
        vec!["E", a],
        vec!["E", b],
        vec!["E", a, "E", b, "E"],
        vec!["E", b, "E", a, "E"],
        vec![a, "E", b],
        vec!["E", a, b, "E"],
        vec!["E", "E"],
        vec![b, "E", a, "E"],
    ];
    let mut pool: Vec<(Vec<&str>, Option<&str>)> = vec![];
    for s in &shapes {
        for p in [None, Some(a), Some(b), Some(u)] {
            pool.push((s.clone(), p));
        }
    }
    // declarations: level of each symbol (0 none) and the directives of the levels
    let mut decls: Vec<Vec<(Assoc, Vec<String>)>> = vec![];
    for la in 0..4 {
        for lb in 0..4 {
            for lu in 0..4 {
                let lv = [la, lb, lu];
                let used: Vec<usize> = (1..4).filter(|l| lv.contains(l)).collect();
                if used != (1..=used.len()).collect::<Vec<_>>() {
                    continue;
                }
                for code in 0..3usize.pow(used.len() as u32) {
                    let mut d = vec![];
                    for (k, l) in used.iter().enumerate() {
                        let asc = [Assoc::Left, Assoc::Right, Assoc::Nonassoc][code / 3usize.pow(k as u32) % 3];
                        let names = [a, b, u].iter().zip(lv).filter(|(_, x)| x == l).map(|(n, _)| n.to_string()).collect();
                        d.push((asc, names));
                    }
                    decls.push(d);
                }
            }
        }
    }
    for k in 1..=max {
        let n = pool.len() as u64;
        let m = choose(n, k);
        c.par(&format!("operator grammars with {k} rules and all precedence declarations"), m * decls.len() as u64, |i| {
            let set = subset(n, k, i % m);
            let mut rules: Vec<(String, Vec<String>, Option<String>)> = set
                .iter()
                .map(|j| ("E".into(), pool[*j].0.iter().map(|s| s.to_string()).collect(), pool[*j].1.map(|s| s.to_string())))
                .collect();
            rules.push(("E".into(), vec!["ICONST".into()], None));
            let prec = decls[(i / m) as usize].clone();
            // %prec needs a declared symbol or one of the grammar
            let known = |p: &str| prec.iter().any(|(_, v)| v.iter().any(|n| n == p)) || rules.iter().any(|r| r.1.iter().any(|x| x == p));
            if rules.iter().any(|r| r.2.as_deref().is_some_and(|p| !known(p))) {
                c.skipped.fetch_add(1, Relaxed);
                return;
            }
            let sp = Spec { rules, prec };
            if i % (m * decls.len() as u64 / 3 + 1) == 1 {
                c.sample(&sp.text());
            }
            judge(c, &sp);
        });
    }
}

/// grammars that grow: many symbols, rules, precedence levels, long right-hand sides, long chains
pub fn families(c: &Ctx, sizes: &[usize]) {
    type Rules = Vec<(String, Vec<String>, Option<String>)>;
    type Family = fn(usize) -> Vec<(Rules, Vec<(Assoc, Vec<String>)>)>;
    fn rule(l: impl ToString, r: &[String]) -> (String, Vec<String>, Option<String>) {
        (l.to_string(), r.to_vec(), None)
    }
    fn t(i: usize) -> String {
        format!("T{i}")
    }
    fn n(i: usize) -> String {
        format!("n{i}")
    }
    fn s(x: &str) -> Vec<String> {
        x.split_whitespace().map(|x| x.to_string()).collect()
    }
    const ASSOC: [Assoc; 3] = [Assoc::Left, Assoc::Right, Assoc::Nonassoc];
    let all: Vec<(&str, Family)> = vec![
        ("operators on levels of their own", |k| {
            let mut out = vec![];
            for turn in 0..4 {
                let level = |i: usize| (ASSOC[(i + turn) % 3], vec![t(i)]);
                let decl: Vec<_> = match turn {
                    0 => (0..k).map(level).collect(),
                    1 => (0..k).rev().map(level).collect(),
                    // all on one level, and two to a level
                    2 => vec![(Assoc::Left, (0..k).map(t).collect())],
                    _ => (0..k).step_by(2).map(|i| (ASSOC[i / 2 % 3], (i..k.min(i + 2)).map(t).collect())).collect(),
                };
                let mut r: Rules = (0..k).map(|i| rule("e", &["e".into(), t(i), "e".into()])).collect();
                // prefix and postfix operators at the level of another
                r.push(("e".into(), vec![t(0), "e".into()], Some(t(k - 1))));
                r.push(("e".into(), vec![t(k / 2), t(k - 1), "e".into()], None));
                r.push(("e".into(), vec!["e".into(), t(k - 1), t(k / 2), t(0)], None));
                r.push(rule("e", &s("ICONST")));
                out.push((r, decl));
            }
            out
        }),
        ("alternatives", |k| {
            let mut a: Rules = (0..k).map(|i| rule("s", &[n(i)])).collect();
            a.extend((0..k).map(|i| rule(n(i), &[t(i)])));
            let b: Rules = (0..k).map(|i| rule("s", &[t(i), t(k - 1 - i)])).collect();
            // the same continuation behind each, told apart at the end
            let mut d: Rules = (0..k).map(|i| rule("s", &[t(i), n(0), t(i)])).collect();
            d.push(rule(n(0), &s("X")));
            d.push(rule(n(0), &s("")));
            vec![(a, vec![]), (b, vec![]), (d, vec![])]
        }),
        ("parts that may be missing", |k| {
            let mut a: Rules = vec![rule("s", &(0..k).map(n).collect::<Vec<_>>())];
            let mut b: Rules = vec![rule("s", &(0..k).map(n).chain(s("END")).collect::<Vec<_>>())];
            for i in 0..k {
                for r in [&mut a, &mut b] {
                    r.push(rule(n(i), &[]));
                    r.push(rule(n(i), &[t(i)]));
                }
            }
            vec![(a, vec![]), (b, vec![])]
        }),
        ("long right-hand sides", |k| {
            let one: Vec<String> = (0..k).map(t).collect();
            let mut two = one.clone();
            *two.last_mut().unwrap() = "X".into();
            let short = one[..k - 1].to_vec();
            let same = vec!["X".to_string(); k];
            let mid: Vec<String> = (0..k).map(|i| if i == k / 2 { n(0) } else { t(0) }).collect();
            vec![
                (vec![rule("s", &one), rule("s", &two)], vec![]),
                (vec![rule("s", &one), rule("s", &short)], vec![]),
                (vec![rule("s", &same), rule("s", &[])], vec![]),
                (vec![rule("s", &mid), rule(n(0), &[]), rule(n(0), &[t(0), t(1), n(0)])], vec![]),
            ]
        }),
        ("chains of single rules", |k| {
            let mut a: Rules = vec![rule("s", &[n(0)])];
            let mut b: Rules = vec![rule("s", &s("'a' n0 'b'")), rule("s", &s("'c' n0 'd'")), rule("s", &s("'a' 'x' 'd'"))];
            for i in 0..k {
                let next = if i + 1 < k { n(i + 1) } else { "'x'".into() };
                a.push(rule(n(i), &[next.clone()]));
                a.push(rule(n(i), &["'('".into(), n(k - 1 - i), t(i)]));
                b.push(rule(n(i), &[next]));
            }
            vec![(a, vec![]), (b, vec![])]
        }),
        ("lists and cycles", |k| {
            let mut a: Rules = vec![rule("s", &[n(0)]), rule("s", &["s".into(), "','".into(), n(0)])];
            let mut b: Rules = vec![];
            for i in 0..k {
                a.push(rule(n(i), &[t(i), n((i + 1) % k)]));
                a.push(rule(n(i), &[]));
                let m = n((i + 1) % k);
                if i == 0 {
                    b.push(rule("s", &[n(0)]));
                }
                b.push(rule(n(i), &[m, t(i)]));
                if i % 3 == 0 {
                    b.push(rule(n(i), &["X".to_string()]));
                }
            }
            vec![(a, vec![]), (b, vec![])]
        }),
        ("conditional forms", |k| {
            // nested conflicts that shifting or precedence resolves
            let mut a: Rules = (0..k).map(|i| rule("s", &[t(i), "s".into(), "ELSE".into(), "s".into()])).collect();
            a.extend((0..k).map(|i| rule("s", &[t(i), "s".into()])));
            a.push(rule("s", &s("X")));
            let decl = vec![(Assoc::Nonassoc, (0..k).step_by(2).map(t).collect()), (Assoc::Nonassoc, s("ELSE"))];
            let back = vec![(Assoc::Nonassoc, s("ELSE")), (Assoc::Nonassoc, (0..k).step_by(2).map(t).collect())];
            vec![(a.clone(), vec![]), (a.clone(), decl), (a, back)]
        }),
    ];
    for (name, f) in all {
        c.par(&format!("growing grammars: {name}"), sizes.len() as u64, |i| {
            let k = sizes[i as usize];
            // the number of entries is quadratic here
            if k > 40 && (name.contains("operators") || name.contains("conditional")) {
                return;
            }
            for (mut rules, prec) in f(k) {
                // grouped by left-hand side, the start symbol first
                let order: HashMap<String, usize> = rules.iter().enumerate().rev().map(|(i, r)| (r.0.clone(), i)).collect();
                rules.sort_by_key(|r| order[&r.0]);
                judge(c, &Spec { rules, prec });
            }
        });
    }
}

pub const SIZES: [usize; 29] =
    [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257];

pub fn check(c: &Ctx) {
    let t = ["'a'", "IDENT", "'c'"];
    for k in 1..=4 {
        structural(c, 2, &t[..2], 2, k);
    }
    structural(c, 1, &t[..2], 3, 2);
    structural(c, 1, &t[..2], 3, 3);
    structural(c, 2, &t[..2], 3, 2);
    structural(c, 3, &t[..1], 2, 3);
    operators(c, 2);
    families(c, &SIZES);
    if c.quick {
        return;
    }
    structural(c, 2, &t[..2], 3, 3);
    structural(c, 3, &t[..1], 2, 4);
    structural(c, 3, &t[..2], 2, 4);
    structural(c, 2, &t[..2], 2, 5);
    operators(c, 3);
}

//! Context-free grammars with yacc precedence declarations.
use std::collections::HashMap;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Assoc {
    Left,
    Right,
    Nonassoc,
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub lhs: u16,       // nonterminal index
    pub rhs: Vec<u16>,  // symbol ids: terminals < nt, then nonterminals offset by nt
    pub prec: Option<u16>, // terminal giving the precedence
}

/// Symbols: ids `0..nt` are terminals (0 is `$end`), `nt..` nonterminals.
#[derive(Clone, Debug)]
pub struct Grammar {
    pub names: Vec<String>,
    pub nt: usize,
    pub rules: Vec<Rule>,
    pub prec: Vec<Option<(u32, Assoc)>>, // per terminal
    pub start: u16,
}

impl Grammar {
    pub fn nn(&self) -> usize {
        self.names.len() - self.nt
    }
    pub fn id(&self, name: &str) -> Option<u16> {
        self.names.iter().position(|n| n == name).map(|i| i as u16)
    }
    pub fn is_term(&self, s: u16) -> bool {
        (s as usize) < self.nt
    }
    pub fn show_rule(&self, r: usize) -> String {
        let r = &self.rules[r];
        let mut s = format!("{} :", self.names[self.nt + r.lhs as usize]);
        for x in &r.rhs {
            s += " ";
            s += &self.names[*x as usize];
        }
        s
    }

    /// The PostgreSQL grammar pinned in data/grammar.txt.
    pub fn pinned() -> Grammar {
        Self::parse(include_str!("../../data/grammar.txt"))
    }

    pub fn parse(text: &str) -> Grammar {
        let (head, body) = text.split_once("%%\n").unwrap();
        let mut precs: Vec<(String, u32, Assoc)> = vec![];
        for (lvl, l) in head.lines().enumerate() {
            let mut f = l.split(' ');
            let a = match f.next().unwrap() {
                "%left" => Assoc::Left,
                "%right" => Assoc::Right,
                _ => Assoc::Nonassoc,
            };
            for s in f {
                precs.push((s.to_string(), lvl as u32 + 1, a));
            }
        }
        let mut raw: Vec<(&str, Vec<&str>, Option<&str>)> = vec![];
        for l in body.lines() {
            let (l, p) = match l.split_once(" %prec ") {
                Some((l, p)) => (l, Some(p)),
                None => (l, None),
            };
            let mut f = l.split(' ');
            let lhs = f.next().unwrap();
            assert_eq!(f.next(), Some(":"));
            raw.push((lhs, f.collect(), p));
        }
        let start = raw[0].0;
        Self::build(&raw, start, &precs)
    }

    pub fn build(raw: &[(&str, Vec<&str>, Option<&str>)], start: &str, precs: &[(String, u32, Assoc)]) -> Grammar {
        let mut nonterms: Vec<&str> = vec![];
        let mut nidx: HashMap<&str, usize> = HashMap::new();
        for (l, _, _) in raw {
            nidx.entry(l).or_insert_with(|| {
                nonterms.push(l);
                nonterms.len() - 1
            });
        }
        let mut terms: Vec<String> = vec!["$end".into()];
        let mut tidx: HashMap<String, usize> = HashMap::new();
        let mut add = |s: &str, terms: &mut Vec<String>| {
            if !tidx.contains_key(s) {
                tidx.insert(s.to_string(), terms.len());
                terms.push(s.to_string());
            }
        };
        for (_, r, _) in raw {
            for s in r {
                if !nidx.contains_key(s) {
                    add(s, &mut terms);
                }
            }
        }
        for (s, _, _) in precs {
            add(s, &mut terms);
        }
        let nt = terms.len();
        let tid = |s: &str| tidx.get(s).copied();
        let mut prec = vec![None; nt];
        for (s, l, a) in precs {
            prec[tid(s).unwrap()] = Some((*l, *a));
        }
        let rules = raw
            .iter()
            .map(|(l, r, p)| {
                let rhs: Vec<u16> = r
                    .iter()
                    .map(|s| match nidx.get(s) {
                        Some(n) => (nt + n) as u16,
                        None => tid(s).unwrap() as u16,
                    })
                    .collect();
                let prec = match p {
                    Some(p) => Some(tid(p).unwrap() as u16),
                    None => rhs.iter().rev().find(|s| (**s as usize) < nt).copied(),
                };
                Rule { lhs: nidx[l] as u16, rhs, prec }
            })
            .collect();
        let start = nidx[start] as u16;
        let mut names = terms;
        names.extend(nonterms.iter().map(|s| s.to_string()));
        Grammar { names, nt, rules, prec, start }
    }
}

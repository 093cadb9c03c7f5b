//! LR driver and expected concrete syntax tree.
use crate::grammar::Grammar;
use crate::lalr::{Tables, ACC, ERR};
use crate::lexer::{self, Keywords, Kind, LaFilter, LexError, Tok};

pub const UNKNOWN: u16 = u16::MAX;

/// What `parse` must deliver.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Tree(Vec<Ev>),
    /// byte range of the offending token
    Syntax(usize, usize),
    Lex(LexError),
    Panic(String),
    /// anything else the implementation may do
    Odd(String),
}

/// Pre-order walk of the tree.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Open(u16, u32, u32),
    Tok(u16, u32, u32),
    Close,
}

pub struct Ref {
    pub g: Grammar,
    pub t: Tables,
    pub kw: Keywords,
    pub la: LaFilter,
    kw_term: Vec<u16>,
    char_term: [u16; 256],
    fixed: Vec<(Kind, u16)>,
    pub c_comment: u16,
    pub sql_comment: u16,
    pub ws: u16,
    pub root: u16,
}

#[derive(Clone, Copy, Debug)]
pub struct Trivia {
    pub kind: u16,
    pub start: usize,
    pub end: usize,
}

/// Derivation tree: nodes in an arena.
#[derive(Clone, Debug)]
pub struct Nd {
    pub sym: u16,
    pub tok: Option<u32>, // index into the significant tokens
    pub kids: Vec<u32>,
    /// significant tokens covered: [from, to)
    pub from: u32,
    pub to: u32,
}

impl Ref {
    pub fn new() -> Ref {
        let g = Grammar::pinned();
        let t = crate::lalr::build(&g);
        let kw = Keywords::load();
        let la = LaFilter::new(&kw);
        let find = |n: &str| g.id(n).filter(|i| g.is_term(*i)).unwrap_or(UNKNOWN);
        let kw_term = kw.tokens.iter().map(|n| find(n)).collect();
        let mut char_term = [UNKNOWN; 256];
        for c in lexer::SELF {
            char_term[*c as usize] = find(&format!("'{}'", *c as char));
        }
        let fixed = [
            (Kind::Ident, "IDENT"),
            (Kind::Bconst, "BCONST"),
            (Kind::Xconst, "XCONST"),
            (Kind::Sconst, "SCONST"),
            (Kind::Typecast, "TYPECAST"),
            (Kind::DotDot, "DOT_DOT"),
            (Kind::ColonEquals, "COLON_EQUALS"),
            (Kind::EqualsGreater, "EQUALS_GREATER"),
            (Kind::LessEquals, "LESS_EQUALS"),
            (Kind::GreaterEquals, "GREATER_EQUALS"),
            (Kind::NotEquals, "NOT_EQUALS"),
            (Kind::Op, "Op"),
            (Kind::Param, "PARAM"),
            (Kind::Fconst, "FCONST"),
            (Kind::Iconst, "ICONST"),
            (Kind::FormatLa, "FORMAT_LA"),
            (Kind::NotLa, "NOT_LA"),
            (Kind::NullsLa, "NULLS_LA"),
            (Kind::WithLa, "WITH_LA"),
            (Kind::WithoutLa, "WITHOUT_LA"),
        ]
        .map(|(k, n)| (k, find(n)))
        .to_vec();
        let n = g.names.len() as u16;
        Ref { g, t, kw, la, kw_term, char_term, fixed, c_comment: n, sql_comment: n + 1, ws: n + 2, root: n + 3 }
    }

    pub fn kind_names(&self) -> Vec<String> {
        let mut v = self.g.names.clone();
        for n in ["C_COMMENT", "SQL_COMMENT", "Whitespace", "Root"] {
            v.push(n.into());
        }
        v
    }

    pub fn term(&self, k: Kind) -> u16 {
        match k {
            Kind::Char(c) => self.char_term[c as usize],
            Kind::Keyword(k) => self.kw_term[k as usize],
            k => self.fixed.iter().find(|f| f.0 == k).map_or(UNKNOWN, |f| f.1),
        }
    }

    /// Significant tokens (after the look-ahead filter) and trivia of a text.
    pub fn scan(&self, input: &str) -> Result<(Vec<Tok>, Vec<Trivia>), LexError> {
        let mut toks = lexer::lex(&self.kw, input)?;
        self.la.apply(&mut toks);
        let mut trivia = vec![];
        let mut sig = Vec::with_capacity(toks.len());
        let mut last = 0;
        for t in toks {
            if last < t.start {
                trivia.push(Trivia { kind: self.ws, start: last, end: t.start });
            }
            last = t.end;
            match t.kind {
                Kind::CComment => trivia.push(Trivia { kind: self.c_comment, start: t.start, end: t.end }),
                Kind::SqlComment => trivia.push(Trivia { kind: self.sql_comment, start: t.start, end: t.end }),
                _ => sig.push(t),
            }
        }
        if last < input.len() {
            trivia.push(Trivia { kind: self.ws, start: last, end: input.len() });
        }
        Ok((sig, trivia))
    }

    /// LR-parse a sequence of terminals: the derivation or the index of the offending token.
    pub fn derive(&self, terms: &[u16]) -> Result<(Vec<Nd>, u32), usize> {
        derive(&self.g, &self.t, terms)
    }

    /// Only acceptance.
    pub fn accepts(&self, terms: &[u16]) -> Result<(), usize> {
        let mut st: Vec<u32> = vec![0];
        let mut i = 0;
        loop {
            let x = if i < terms.len() { terms[i] } else { 0 };
            if x == UNKNOWN {
                return Err(i);
            }
            match self.t.act(*st.last().unwrap() as usize, x as usize) {
                ERR => return Err(i),
                ACC => return Ok(()),
                a if a > 0 => {
                    st.push(a as u32 - 1);
                    i += 1;
                }
                a => {
                    let r = &self.g.rules[(-a - 1) as usize];
                    st.truncate(st.len() - r.rhs.len());
                    let q = self.t.go(*st.last().unwrap() as usize, r.lhs as usize);
                    st.push(q);
                }
            }
        }
    }

    pub fn parse(&self, input: &str, keep_empty: bool) -> Outcome {
        let (toks, trivia) = match self.scan(input) {
            Ok(x) => x,
            Err(e) => return Outcome::Lex(e),
        };
        let terms: Vec<u16> = toks.iter().map(|t| self.term(t.kind)).collect();
        match self.derive(&terms) {
            Err(i) => match toks.get(i) {
                Some(t) => Outcome::Syntax(t.start, t.end),
                None => Outcome::Syntax(input.len(), input.len()),
            },
            Ok((arena, top)) => Outcome::Tree(self.layout(input.len(), &arena, top, &toks, &trivia, keep_empty)),
        }
    }

    /// Place tokens and trivia. The start of a constituent is where its first token starts, unless
    /// its leftmost constituent is empty: then it is the end of the last comment before the next
    /// token, or the end of the previous token. Trivia starting before a constituent are
    /// placed before it (in its parent), trailing trivia belong to the root.
    pub fn layout(&self, len: usize, arena: &[Nd], top: u32, toks: &[Tok], trivia: &[Trivia], keep: bool) -> Vec<Ev> {
        // position of an empty constituent in the gap before token k
        let empty_pos = |k: usize| -> usize {
            let prev = if k == 0 { 0 } else { toks[k - 1].end };
            let next = toks.get(k).map_or(len, |t| t.start);
            let lo = trivia.partition_point(|t| t.start < prev);
            let hi = trivia.partition_point(|t| t.start < next);
            trivia[lo..hi].iter().rev().find(|t| t.kind != self.ws).map_or(prev, |t| t.end)
        };
        // start positions, children before parents in the arena
        let mut start = vec![0usize; arena.len()];
        for (i, n) in arena.iter().enumerate() {
            start[i] = match (n.tok, n.kids.first()) {
                (Some(t), _) => toks[t as usize].start,
                (None, Some(&k)) => start[k as usize],
                (None, None) => empty_pos(n.from as usize),
            };
        }
        enum W {
            Visit(u32),
            Close(usize),
        }
        let mut evs: Vec<Ev> = Vec::with_capacity(arena.len() * 2 + trivia.len());
        let mut ti = 0;
        let mut pos = 0u32;
        evs.push(Ev::Open(self.root, 0, 0));
        let mut work = vec![W::Close(0), W::Visit(top)];
        while let Some(w) = work.pop() {
            match w {
                W::Visit(i) => {
                    let n = &arena[i as usize];
                    if n.from == n.to && !keep {
                        continue;
                    }
                    while ti < trivia.len() && trivia[ti].start < start[i as usize] {
                        let t = trivia[ti];
                        evs.push(Ev::Tok(t.kind, t.start as u32, t.end as u32));
                        pos = t.end as u32;
                        ti += 1;
                    }
                    if let Some(t) = n.tok {
                        let t = &toks[t as usize];
                        evs.push(Ev::Tok(n.sym, t.start as u32, t.end as u32));
                        pos = t.end as u32;
                    } else {
                        let at = evs.len();
                        evs.push(Ev::Open(n.sym, pos, pos));
                        work.push(W::Close(at));
                        for k in n.kids.iter().rev() {
                            work.push(W::Visit(*k));
                        }
                    }
                }
                W::Close(at) => {
                    if at == 0 {
                        for t in &trivia[ti..] {
                            evs.push(Ev::Tok(t.kind, t.start as u32, t.end as u32));
                            pos = t.end as u32;
                        }
                    }
                    if let Ev::Open(_, _, e) = &mut evs[at] {
                        *e = pos;
                    }
                    evs.push(Ev::Close);
                }
            }
        }
        evs
    }
}

impl Default for Ref {
    fn default() -> Self {
        Self::new()
    }
}

pub fn derive(g: &Grammar, t: &Tables, terms: &[u16]) -> Result<(Vec<Nd>, u32), usize> {
    derive_with(g, t, terms, &mut |_, _| {})
}

/// as `derive`, reporting every (state, terminal) entry consulted
pub fn derive_with(
    g: &Grammar,
    t: &Tables,
    terms: &[u16],
    seen: &mut dyn FnMut(usize, usize),
) -> Result<(Vec<Nd>, u32), usize> {
    let mut arena: Vec<Nd> = vec![];
    let mut st: Vec<(u32, u32)> = vec![(0, u32::MAX)];
    let mut i = 0;
    loop {
        let x = if i < terms.len() { terms[i] } else { 0 };
        if x == UNKNOWN {
            return Err(i);
        }
        seen(st.last().unwrap().0 as usize, x as usize);
        match t.act(st.last().unwrap().0 as usize, x as usize) {
            ERR => return Err(i),
            ACC => return Ok((arena, st[1].1)),
            a if a > 0 => {
                arena.push(Nd { sym: x, tok: Some(i as u32), kids: vec![], from: i as u32, to: i as u32 + 1 });
                st.push((a as u32 - 1, arena.len() as u32 - 1));
                i += 1;
            }
            a => {
                let r = &g.rules[(-a - 1) as usize];
                let kids: Vec<u32> = st[st.len() - r.rhs.len()..].iter().map(|p| p.1).collect();
                st.truncate(st.len() - kids.len());
                let from = kids.first().map_or(i as u32, |k| arena[*k as usize].from);
                let q = t.go(st.last().unwrap().0 as usize, r.lhs as usize);
                arena.push(Nd { sym: (g.nt + r.lhs as usize) as u16, tok: None, kids, from, to: i as u32 });
                st.push((q, arena.len() as u32 - 1));
            }
        }
    }
}

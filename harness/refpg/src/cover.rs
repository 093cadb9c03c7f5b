//! Sentences that drive the reference automaton through every (state, terminal) entry.
use crate::driver::{Ref, UNKNOWN};
use crate::lalr::{ACC, ERR};
use std::cmp::Reverse;
use std::collections::{BinaryHeap, HashMap};

pub struct Cover<'a> {
    pub r: &'a Ref,
    /// per symbol: cost of the cheapest renderable yield
    pub cost: Vec<u32>,
    /// per nonterminal: rule of the cheapest yield
    best: Vec<usize>,
    /// per state: (previous state, symbol) on the cheapest path
    pub prev: Vec<(u32, u16)>,
    pub pcost: Vec<u32>,
    rends: Vec<Option<String>>,
}

const INF: u32 = u32::MAX / 4;

impl<'a> Cover<'a> {
    pub fn new(r: &'a Ref) -> Cover<'a> {
        let g = &r.g;
        let rends: Vec<Option<String>> = (0..g.nt).map(|t| rendering(r, t as u16)).collect();
        let mut cost = vec![INF; g.names.len()];
        for t in 1..g.nt {
            if rends[t].is_some() {
                cost[t] = match g.names[t].as_str() {
                    "IDENT" => 100,
                    n if n.ends_with("_LA") => 150,
                    n if n.starts_with('\'') => 101,
                    _ => 102,
                };
            }
        }
        let mut best = vec![usize::MAX; g.nn()];
        loop {
            let mut ch = false;
            for (i, rule) in g.rules.iter().enumerate() {
                let c = rule.rhs.iter().map(|s| cost[*s as usize]).fold(0u32, |a, b| (a + b).min(INF));
                let l = g.nt + rule.lhs as usize;
                if c < cost[l] {
                    cost[l] = c;
                    best[rule.lhs as usize] = i;
                    ch = true;
                }
            }
            if !ch {
                break;
            }
        }
        // cheapest paths
        let ns = r.t.nstates;
        let mut pcost = vec![INF; ns];
        let mut prev = vec![(u32::MAX, 0u16); ns];
        let mut heap = BinaryHeap::new();
        pcost[0] = 0;
        heap.push(Reverse((0u32, 0u32)));
        while let Some(Reverse((c, s))) = heap.pop() {
            if c > pcost[s as usize] {
                continue;
            }
            let mut relax = |sym: u16, q: u32| {
                let nc = c + cost[sym as usize] + 1;
                if cost[sym as usize] < INF && nc < pcost[q as usize] {
                    pcost[q as usize] = nc;
                    prev[q as usize] = (s, sym);
                    heap.push(Reverse((nc, q)));
                }
            };
            for x in 0..g.nt {
                let a = r.t.act(s as usize, x);
                if a > 0 && a != ACC {
                    relax(x as u16, a as u32 - 1);
                }
            }
            for n in 0..g.nn() {
                let q = r.t.go(s as usize, n);
                if q != u32::MAX {
                    relax((g.nt + n) as u16, q);
                }
            }
        }
        Cover { r, cost, best, prev, pcost, rends }
    }

    pub fn expand(&self, sym: u16, out: &mut Vec<u16>) {
        let g = &self.r.g;
        if g.is_term(sym) {
            out.push(sym);
        } else {
            let r = &g.rules[self.best[sym as usize - g.nt]];
            for &x in &r.rhs {
                self.expand(x, out);
            }
        }
    }

    /// cheapest symbol path to a state
    pub fn path(&self, s: usize) -> Option<Vec<u16>> {
        if self.pcost[s] >= INF {
            return None;
        }
        let mut p = vec![];
        let mut q = s;
        while q != 0 {
            let (b, x) = self.prev[q];
            p.push(x);
            q = b as usize;
        }
        p.reverse();
        Some(p)
    }

    pub fn prefix(&self, s: usize) -> Option<Vec<u16>> {
        let mut out = vec![];
        for x in self.path(s)? {
            self.expand(x, &mut out);
        }
        Some(out)
    }

    /// stack after `prefix` if, reading x next, the parser passes through state s and shifts x
    /// (the returned stack is the one after shifting x; for x = $end the one before)
    pub fn through(&self, prefix: &[u16], s: usize, x: usize) -> Option<Vec<u32>> {
        let mut st = vec![0];
        if !self.run(&mut st, prefix) {
            return None;
        }
        let mut visited = false;
        loop {
            let top = *st.last().unwrap() as usize;
            visited |= top == s;
            match self.r.t.act(top, x) {
                ERR => return None,
                ACC => return visited.then_some(st),
                a if a > 0 => {
                    if !visited {
                        return None;
                    }
                    st.push(a as u32 - 1);
                    return Some(st);
                }
                a => self.reduce(&mut st, (-a - 1) as usize),
            }
        }
    }

    /// states b such that reading `syms` from b leads to s
    fn bases(&self, s: u32, syms: &[u16], inedges: &[Vec<u32>]) -> Vec<u32> {
        let mut cur = vec![s];
        for x in syms.iter().rev() {
            let mut next = vec![];
            for q in cur {
                if self.r.t.entry[q as usize] == *x {
                    next.extend_from_slice(&inedges[q as usize]);
                }
            }
            next.sort();
            next.dedup();
            cur = next;
        }
        cur
    }

    pub fn inedges(&self) -> Vec<Vec<u32>> {
        let g = &self.r.g;
        let mut v = vec![vec![]; self.r.t.nstates];
        for s in 0..self.r.t.nstates {
            for x in 0..g.nt {
                let a = self.r.t.act(s, x);
                if a > 0 && a != ACC {
                    v[a as usize - 1].push(s as u32);
                }
            }
            for n in 0..g.nn() {
                let q = self.r.t.go(s, n);
                if q != u32::MAX {
                    v[q as usize].push(s as u32);
                }
            }
        }
        v
    }

    /// a prefix after which the parser, reading x, passes through s and goes on to shift x
    pub fn find_prefix(&self, s: usize, x: usize, inedges: &[Vec<u32>]) -> Option<(Vec<u16>, Vec<u32>)> {
        let g = &self.r.g;
        let first = self.prefix(s)?;
        if let Some(st) = self.through(&first, s, x) {
            return Some((first, st));
        }
        let a = self.r.t.act(s, x);
        if a >= 0 {
            // a shift: try every predecessor
            for &b in &inedges[s] {
                let Some(mut p) = self.prefix(b as usize) else { continue };
                self.expand(self.r.t.entry[s], &mut p);
                if let Some(st) = self.through(&p, s, x) {
                    return Some((p, st));
                }
            }
            return None;
        }
        // a reduction: walk up the contexts in which its left-hand side can be followed by x
        let mut seen: std::collections::HashSet<(u32, u16)> = Default::default();
        let mut queue: std::collections::VecDeque<(u32, u16, Vec<u16>)> = Default::default();
        let r0 = (-a - 1) as usize;
        for b in self.bases(s as u32, &g.rules[r0].rhs, inedges) {
            queue.push_back((b, g.rules[r0].lhs, g.rules[r0].rhs.clone()));
        }
        let mut tries = 0;
        while let Some((b, lhs, suffix)) = queue.pop_front() {
            if !seen.insert((b, lhs)) {
                continue;
            }
            let q = self.r.t.go(b as usize, lhs as usize);
            if q == u32::MAX {
                continue;
            }
            let act = self.r.t.act(q as usize, x);
            if act == ERR {
                continue;
            }
            let empty = act < 0 && g.rules[(-act - 1) as usize].rhs.is_empty();
            if act > 0 || empty {
                if let Some(mut p) = self.prefix(b as usize) {
                    for y in &suffix {
                        self.expand(*y, &mut p);
                    }
                    tries += 1;
                    if let Some(st) = self.through(&p, s, x) {
                        return Some((p, st));
                    }
                    if tries > 400 {
                        return None;
                    }
                }
            } 
            if act < 0 && !empty {
                let r2 = &g.rules[(-act - 1) as usize];
                let alpha = &r2.rhs[..r2.rhs.len() - 1];
                if r2.rhs.last() != Some(&(g.nt as u16 + lhs)) {
                    continue;
                }
                for b2 in self.bases(b, alpha, inedges) {
                    let mut suf = alpha.to_vec();
                    suf.extend_from_slice(&suffix);
                    queue.push_back((b2, r2.lhs, suf));
                }
            }
        }
        None
    }

    /// run the parser over `terms` (without end); the stack after the last shift, or None on error
    pub fn run(&self, stack: &mut Vec<u32>, terms: &[u16]) -> bool {
        for &x in terms {
            loop {
                match self.r.t.act(*stack.last().unwrap() as usize, x as usize) {
                    ERR | ACC => return false,
                    a if a > 0 => {
                        stack.push(a as u32 - 1);
                        break;
                    }
                    a => self.reduce(stack, (-a - 1) as usize),
                }
            }
        }
        true
    }

    fn reduce(&self, stack: &mut Vec<u32>, rule: usize) {
        let r = &self.r.g.rules[rule];
        stack.truncate(stack.len() - r.rhs.len());
        let q = self.r.t.go(*stack.last().unwrap() as usize, r.lhs as usize);
        stack.push(q);
    }

    /// cheapest completion of a stack, as a guess: it must be confirmed by running it
    fn guess(&self, stack: &[u32], banned: &[(usize, u32, u16, u16)]) -> Option<(Vec<u16>, Vec<(usize, u32, u16, u16)>)> {
        let g = &self.r.g;
        let t = &self.r.t;
        type Node = (usize, u32);
        let k0 = stack.len() - 1;
        let start: Node = (k0, stack[k0]);
        let goal: Node = (1, t.go(0, g.start as usize));
        let mut dist: HashMap<Node, u32> = HashMap::new();
        let mut from: HashMap<Node, (Node, u16, u16)> = HashMap::new();
        let mut heap = BinaryHeap::new();
        dist.insert(start, 0);
        heap.push(Reverse((0u32, start)));
        while let Some(Reverse((c, n))) = heap.pop() {
            if c > dist[&n] {
                continue;
            }
            if n == goal {
                let mut edges = vec![];
                let mut cur = n;
                while cur != start {
                    let (p, r, d) = from[&cur];
                    edges.push((p.0, p.1, r, d));
                    cur = p;
                }
                edges.reverse();
                let mut out = vec![];
                for (_, _, r, d) in &edges {
                    for &x in &g.rules[*r as usize].rhs[*d as usize..] {
                        self.expand(x, &mut out);
                    }
                }
                return Some((out, edges));
            }
            let (k, q) = n;
            for &(r, d) in &t.kernels[q as usize] {
                if r as usize == g.rules.len() || d == 0 || banned.contains(&(k, q, r, d)) {
                    continue;
                }
                let d = d as usize;
                if d > k {
                    continue;
                }
                let rule = &g.rules[r as usize];
                let w = rule.rhs[d..].iter().map(|s| self.cost[*s as usize]).fold(0u32, |a, b| (a + b).min(INF));
                if w >= INF {
                    continue;
                }
                let base = stack[k - d];
                let q2 = t.go(base as usize, rule.lhs as usize);
                if q2 == u32::MAX {
                    continue;
                }
                let m: Node = (k - d + 1, q2);
                let nc = c + w + 1;
                if dist.get(&m).is_none_or(|o| nc < *o) {
                    dist.insert(m, nc);
                    from.insert(m, (n, r, d as u16));
                    heap.push(Reverse((nc, m)));
                }
            }
        }
        None
    }

    /// a terminal string that completes the stack to a sentence
    pub fn complete(&self, stack: &[u32]) -> Option<Vec<u16>> {
        let mut banned: Vec<(usize, u32, u16, u16)> = vec![];
        for _ in 0..12 {
            let (out, edges) = self.guess(stack, &banned)?;
            let mut s = stack.to_vec();
            if self.run(&mut s, &out) && self.accepts_end(&mut s) {
                return Some(out);
            }
            banned.push(*edges.iter().find(|e| !banned.contains(e))?);
        }
        None
    }

    pub fn accepts_end(&self, stack: &mut Vec<u32>) -> bool {
        loop {
            match self.r.t.act(*stack.last().unwrap() as usize, 0) {
                ACC => return true,
                a if a < 0 => self.reduce(stack, (-a - 1) as usize),
                _ => return false,
            }
        }
    }

    pub fn render(&self, terms: &[u16]) -> String {
        let mut s = String::new();
        for (i, t) in terms.iter().enumerate() {
            if i > 0 {
                s.push(' ');
            }
            s.push_str(self.rends[*t as usize].as_deref().unwrap_or("?"));
        }
        s
    }
    pub fn renderable(&self, t: u16) -> bool {
        self.rends[t as usize].is_some()
    }
    /// terminals of a text as the reference sees them
    pub fn terms_of(&self, text: &str) -> Option<Vec<u16>> {
        let (toks, _) = self.r.scan(text).ok()?;
        Some(toks.iter().map(|t| self.r.term(t.kind)).collect())
    }

    /// Repetitions: for every way a nonterminal A contains itself (A => l A r, through one rule and the
    /// shortest way back) the parts (before, l, A, r, behind) of a sentence; l and r can be repeated.
    pub fn repetitions(&self) -> Vec<[Vec<u16>; 5]> {
        let g = &self.r.g;
        let nn = g.nn();
        let nonterm = |x: u16| (x as usize >= g.nt).then(|| x as usize - g.nt);
        // edges (rule, position) with the cost of what stands around the position
        let around = |i: usize, p: usize| {
            let rest = g.rules[i].rhs.iter().enumerate().filter(|(q, _)| *q != p);
            rest.map(|(_, s)| self.cost[*s as usize]).fold(1u32, |a, b| (a + b).min(INF))
        };
        let mut edges: Vec<Vec<(usize, usize, usize, u32)>> = vec![vec![]; nn];
        for (i, r) in g.rules.iter().enumerate() {
            for (p, &x) in r.rhs.iter().enumerate() {
                if let (Some(n), c) = (nonterm(x), around(i, p)) {
                    if c < INF {
                        edges[r.lhs as usize].push((i, p, n, c));
                    }
                }
            }
        }
        // cheapest way from a nonterminal to all others
        let from = |start: usize| -> Vec<Option<(usize, usize)>> {
            let mut dist = vec![INF; nn];
            let mut via = vec![None; nn];
            let mut heap = std::collections::BinaryHeap::from([(std::cmp::Reverse(0u32), start)]);
            dist[start] = 0;
            while let Some((std::cmp::Reverse(d), n)) = heap.pop() {
                if d > dist[n] {
                    continue;
                }
                for &(i, p, m, c) in &edges[n] {
                    if d + c < dist[m] {
                        dist[m] = d + c;
                        via[m] = Some((i, p));
                        heap.push((std::cmp::Reverse(d + c), m));
                    }
                }
            }
            via
        };
        // what stands left and right of `to` in the cheapest derivation from `start`
        let parts = |via: &[Option<(usize, usize)>], start: usize, to: usize| -> Option<(Vec<u16>, Vec<u16>)> {
            let (mut l, mut r, mut n) = (vec![], vec![], to);
            while n != start {
                let (i, p) = via[n]?;
                let rule = &g.rules[i];
                let mut w = vec![];
                rule.rhs[..p].iter().for_each(|x| self.expand(*x, &mut w));
                w.extend(l);
                l = w;
                rule.rhs[p + 1..].iter().for_each(|x| self.expand(*x, &mut r));
                n = rule.lhs as usize;
            }
            Some((l, r))
        };
        let top = from(g.start as usize);
        let mut out = std::collections::BTreeSet::new();
        for n in 0..nn {
            let Some((before, behind)) = parts(&top, g.start as usize, n) else { continue };
            if self.cost[g.nt + n] >= INF {
                continue;
            }
            let mut core = vec![];
            self.expand((g.nt + n) as u16, &mut core);
            for &(i, p, m, _) in &edges[n] {
                // the way back from the nonterminal at the position
                let Some((l2, r2)) = parts(&from(m), m, n) else { continue };
                let (mut l, mut r) = (vec![], r2);
                g.rules[i].rhs[..p].iter().for_each(|x| self.expand(*x, &mut l));
                g.rules[i].rhs[p + 1..].iter().for_each(|x| self.expand(*x, &mut r));
                l.extend(l2);
                if !l.is_empty() || !r.is_empty() {
                    out.insert([before.clone(), l, core.clone(), r, behind.clone()]);
                }
            }
        }
        out.into_iter().filter(|v| v.iter().flatten().all(|t| self.renderable(*t))).collect()
    }

    /// for every grammar rule one sentence using it, for every rule and every nonterminal of its right-hand
    /// side every alternative, ... : derivations of depth 2 below each rule
    pub fn rule_sentences(&self) -> Vec<(usize, Vec<u16>)> {
        let g = &self.r.g;
        // cheapest context of each nonterminal: (rule, position) path from the start symbol
        let nn = g.nn();
        let mut ccost = vec![INF; nn];
        let mut via: Vec<(usize, usize)> = vec![(usize::MAX, 0); nn];
        ccost[g.start as usize] = 0;
        loop {
            let mut ch = false;
            for (i, r) in g.rules.iter().enumerate() {
                if ccost[r.lhs as usize] >= INF {
                    continue;
                }
                for (p, &x) in r.rhs.iter().enumerate() {
                    if (x as usize) < g.nt {
                        continue;
                    }
                    let rest = r
                        .rhs
                        .iter()
                        .enumerate()
                        .filter(|(q, _)| *q != p)
                        .map(|(_, s)| self.cost[*s as usize])
                        .fold(0u32, |a, b| (a + b).min(INF));
                    let c = (ccost[r.lhs as usize] + rest + 1).min(INF);
                    let n = x as usize - g.nt;
                    if c < ccost[n] {
                        ccost[n] = c;
                        via[n] = (i, p);
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut out = vec![];
        for (i, r) in g.rules.iter().enumerate() {
            if ccost[r.lhs as usize] >= INF {
                continue;
            }
            let mut variants: Vec<Vec<u16>> = vec![];
            let mut base = vec![];
            for &x in &r.rhs {
                self.expand(x, &mut base);
            }
            variants.push(base);
            for (p, &x) in r.rhs.iter().enumerate() {
                if (x as usize) < g.nt {
                    continue;
                }
                for r2 in g.rules.iter().filter(|q| q.lhs as usize == x as usize - g.nt) {
                    let mut v = vec![];
                    for (q, &y) in r.rhs.iter().enumerate() {
                        if q == p {
                            for &z in &r2.rhs {
                                self.expand_ok(z, &mut v);
                            }
                        } else {
                            self.expand_ok(y, &mut v);
                        }
                    }
                    variants.push(v);
                }
            }
            for v in variants {
                if v.contains(&UNKNOWN) || v.iter().any(|t| !self.renderable(*t)) {
                    continue;
                }
                let mut v = v;
                let mut n = r.lhs as usize;
                let mut guard = 0;
                while n != g.start as usize && guard < 200 {
                    guard += 1;
                    let (ri, p) = via[n];
                    let rule = &g.rules[ri];
                    let mut w = vec![];
                    for &x in &rule.rhs[..p] {
                        self.expand(x, &mut w);
                    }
                    w.extend(v);
                    for &x in &rule.rhs[p + 1..] {
                        self.expand(x, &mut w);
                    }
                    v = w;
                    n = rule.lhs as usize;
                }
                out.push((i, v));
            }
        }
        out.sort_by(|a, b| a.1.cmp(&b.1).then(a.0.cmp(&b.0)));
        out.dedup_by(|a, b| a.1 == b.1);
        out
    }
    fn expand_ok(&self, sym: u16, out: &mut Vec<u16>) {
        if self.cost[sym as usize] >= INF {
            out.push(UNKNOWN);
        } else {
            self.expand(sym, out);
        }
    }
}

/// spelling of a terminal (spellings are joined by single spaces)
pub fn rendering(r: &Ref, t: u16) -> Option<String> {
    let n = r.g.names[t as usize].as_str();
    if let Some(c) = n.strip_prefix('\'') {
        return Some(c[..c.len() - 1].to_string());
    }
    Some(
        match n {
            "IDENT" => "a",
            "SCONST" => "'s'",
            "ICONST" => "1",
            "FCONST" => "1.5",
            "BCONST" => "b'1'",
            "XCONST" => "x'1'",
            "PARAM" => "$1",
            "Op" => "~",
            "TYPECAST" => "::",
            "DOT_DOT" => "..",
            "COLON_EQUALS" => ":=",
            "EQUALS_GREATER" => "=>",
            "LESS_EQUALS" => "<=",
            "GREATER_EQUALS" => ">=",
            "NOT_EQUALS" => "<>",
            "FORMAT_LA" => "format",
            "NOT_LA" => "not",
            "NULLS_LA" => "nulls",
            "WITH_LA" => "with",
            "WITHOUT_LA" => "without",
            n => {
                let k = r.kw.tokens.iter().position(|t| t == n)?;
                &r.kw.names[k]
            }
        }
        .to_string(),
    )
}

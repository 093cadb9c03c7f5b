//! Reference LALR(1) construction: LR(0) automaton, DeRemer–Pennello look-ahead sets,
//! yacc/bison conflict resolution.
use crate::grammar::{Assoc, Grammar};
use std::collections::HashMap;

pub const ERR: i32 = 0;
pub const ACC: i32 = i32::MAX;

/// Actions: 0 error, +s+1 shift to s, -(r+1) reduce rule r, ACC accept.
#[derive(Clone, Debug)]
pub struct Tables {
    pub nstates: usize,
    pub nt: usize,
    pub nn: usize,
    pub action: Vec<i32>,
    pub goto_: Vec<u32>, // u32::MAX = none
    /// kernel items of each state (rule, dot); rule index == rules.len() is the augmented rule
    pub kernels: Vec<Vec<(u16, u16)>>,
    /// entry symbol of each state (u16::MAX for the initial state)
    pub entry: Vec<u16>,
    pub sr_unresolved: usize,
    pub rr: usize,
    /// (state, terminal) pairs for which two or more rules could be reduced, before any resolution
    pub rr_overlap: usize,
}

impl Tables {
    #[inline]
    pub fn act(&self, s: usize, t: usize) -> i32 {
        self.action[s * self.nt + t]
    }
    #[inline]
    pub fn go(&self, s: usize, n: usize) -> u32 {
        self.goto_[s * self.nn + n]
    }
}

type Bits = Vec<u64>;
fn bit(b: &mut [u64], i: usize) {
    b[i / 64] |= 1 << (i % 64);
}
fn or(a: &mut [u64], b: &[u64]) {
    for (x, y) in a.iter_mut().zip(b) {
        *x |= y;
    }
}
fn each(b: &[u64]) -> impl Iterator<Item = usize> + '_ {
    b.iter().enumerate().flat_map(|(i, w)| {
        let mut w = *w;
        std::iter::from_fn(move || {
            if w == 0 {
                return None;
            }
            let t = w.trailing_zeros() as usize;
            w &= w - 1;
            Some(i * 64 + t)
        })
    })
}

/// digraph algorithm of DeRemer & Pennello: F(x) = F'(x) ∪ ⋃ F(y), x R y
fn digraph(n: usize, rel: &[Vec<u32>], f: &mut [Bits]) {
    let mut num = vec![0usize; n];
    let mut stack: Vec<usize> = vec![];
    for root in 0..n {
        if num[root] != 0 {
            continue;
        }
        // explicit traversal stack: (node, next successor, depth)
        let mut call: Vec<(usize, usize, usize)> = vec![];
        stack.push(root);
        num[root] = stack.len();
        call.push((root, 0, stack.len()));
        while let Some(&mut (x, ref mut k, d)) = call.last_mut() {
            if *k < rel[x].len() {
                let y = rel[x][*k] as usize;
                *k += 1;
                if num[y] == 0 {
                    stack.push(y);
                    num[y] = stack.len();
                    call.push((y, 0, stack.len()));
                } else {
                    num[x] = num[x].min(num[y]);
                    if x != y {
                        let t = f[y].clone();
                        or(&mut f[x], &t);
                    }
                }
                continue;
            }
            call.pop();
            if num[x] == d {
                loop {
                    let t = stack.pop().unwrap();
                    num[t] = usize::MAX;
                    if t == x {
                        break;
                    }
                    f[t] = f[x].clone();
                }
            }
            if let Some(&(p, _, _)) = call.last() {
                num[p] = num[p].min(num[x]);
                let t = f[x].clone();
                or(&mut f[p], &t);
            }
        }
    }
}

pub fn build(g: &Grammar) -> Tables {
    let nt = g.nt;
    let nn = g.nn();
    let nr = g.rules.len();
    let aug_rhs = vec![(nt + g.start as usize) as u16];
    let rhs = |r: usize| -> &[u16] {
        if r == nr {
            &aug_rhs
        } else {
            &g.rules[r].rhs
        }
    };
    let mut by_lhs: Vec<Vec<u16>> = vec![vec![]; nn];
    for (i, r) in g.rules.iter().enumerate() {
        by_lhs[r.lhs as usize].push(i as u16);
    }
    // nullable
    let mut nullable = vec![false; nn];
    loop {
        let mut ch = false;
        for r in &g.rules {
            if !nullable[r.lhs as usize] && r.rhs.iter().all(|s| (*s as usize) >= nt && nullable[*s as usize - nt]) {
                nullable[r.lhs as usize] = true;
                ch = true;
            }
        }
        if !ch {
            break;
        }
    }
    // LR(0)
    let mut kernels: Vec<Vec<(u16, u16)>> = vec![vec![(nr as u16, 0)]];
    let mut entry: Vec<u16> = vec![u16::MAX];
    let mut index: HashMap<Vec<(u16, u16)>, u32> = HashMap::new();
    index.insert(kernels[0].clone(), 0);
    let mut trans: Vec<Vec<(u16, u32)>> = vec![];
    let mut reduces: Vec<Vec<u16>> = vec![];
    let mut s = 0;
    while s < kernels.len() {
        let mut items = kernels[s].clone();
        let mut seen = vec![false; nn];
        let mut k = 0;
        while k < items.len() {
            let (r, d) = items[k];
            k += 1;
            if let Some(&x) = rhs(r as usize).get(d as usize) {
                if (x as usize) >= nt && !seen[x as usize - nt] {
                    seen[x as usize - nt] = true;
                    for &q in &by_lhs[x as usize - nt] {
                        items.push((q, 0));
                    }
                }
            }
        }
        let mut nexts: std::collections::BTreeMap<u16, Vec<(u16, u16)>> = Default::default();
        let mut red = vec![];
        for &(r, d) in &items {
            match rhs(r as usize).get(d as usize) {
                Some(&x) => nexts.entry(x).or_default().push((r, d + 1)),
                None => red.push(r),
            }
        }
        let mut tr = vec![];
        for (x, mut kern) in nexts {
            kern.sort();
            let id = *index.entry(kern.clone()).or_insert_with(|| {
                kernels.push(kern);
                entry.push(x);
                kernels.len() as u32 - 1
            });
            tr.push((x, id));
        }
        red.sort();
        trans.push(tr);
        reduces.push(red);
        s += 1;
    }
    let ns = kernels.len();
    let step = |s: usize, x: u16| -> u32 {
        let t = &trans[s];
        t[t.binary_search_by_key(&x, |p| p.0).unwrap()].1
    };
    // nonterminal transitions
    let mut ntr: Vec<(u32, u16)> = vec![]; // (state, nonterminal)
    let mut ntr_of: HashMap<(u32, u16), u32> = HashMap::new();
    for (s, t) in trans.iter().enumerate() {
        for &(x, _) in t {
            if (x as usize) >= nt {
                ntr_of.insert((s as u32, x - nt as u16), ntr.len() as u32);
                ntr.push((s as u32, x - nt as u16));
            }
        }
    }
    let words = nt.div_ceil(64);
    let n = ntr.len();
    let mut f: Vec<Bits> = vec![vec![0; words]; n];
    let mut reads: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, &(p, a)) in ntr.iter().enumerate() {
        let r = step(p as usize, nt as u16 + a) as usize;
        for &(x, _) in &trans[r] {
            if (x as usize) < nt {
                bit(&mut f[i], x as usize);
            } else if nullable[x as usize - nt] {
                reads[i].push(ntr_of[&(r as u32, x - nt as u16)]);
            }
        }
        if p == 0 && a == g.start {
            bit(&mut f[i], 0); // $end
        }
    }
    digraph(n, &reads, &mut f);
    let mut includes: Vec<Vec<u32>> = vec![vec![]; n];
    let mut lookback: HashMap<(u32, u16), Vec<u32>> = HashMap::new();
    for (i, &(p, a)) in ntr.iter().enumerate() {
        for &r in &by_lhs[a as usize] {
            let w = rhs(r as usize);
            let mut q = p;
            for (k, &x) in w.iter().enumerate() {
                if (x as usize) >= nt
                    && w[k + 1..].iter().all(|y| (*y as usize) >= nt && nullable[*y as usize - nt])
                {
                    let j = ntr_of[&(q, x - nt as u16)];
                    includes[j as usize].push(i as u32);
                }
                q = step(q as usize, x);
            }
            lookback.entry((q, r)).or_default().push(i as u32);
        }
    }
    digraph(n, &includes, &mut f);
    // tables
    let mut t = Tables {
        nstates: ns,
        nt,
        nn,
        action: vec![ERR; ns * nt],
        goto_: vec![u32::MAX; ns * nn],
        kernels,
        entry,
        sr_unresolved: 0,
        rr: 0,
        rr_overlap: 0,
    };
    for s in 0..ns {
        let mut shift: Vec<i32> = vec![ERR; nt];
        for &(x, q) in &trans[s] {
            if (x as usize) < nt {
                shift[x as usize] = q as i32 + 1;
            } else {
                t.goto_[s * nn + x as usize - nt] = q;
            }
        }
        let mut erased = vec![false; nt]; // explicit %nonassoc errors
        let mut reds: Vec<(u16, Bits)> = vec![];
        for &r in &reduces[s] {
            let mut la = vec![0; words];
            if r as usize == nr {
                bit(&mut la, 0);
            } else if let Some(v) = lookback.get(&(s as u32, r)) {
                for &i in v {
                    or(&mut la, &f[i as usize]);
                }
            }
            reds.push((r, la));
        }
        for x in 0..nt {
            let both = reds.iter().filter(|(r, la)| *r as usize != nr && la[x / 64] >> (x % 64) & 1 == 1).count();
            t.rr_overlap += (both > 1) as usize;
        }
        // shift/reduce resolution by precedence, rule by rule
        for (r, la) in reds.iter_mut() {
            if *r as usize == nr {
                continue;
            }
            let rp = g.rules[*r as usize].prec.and_then(|p| g.prec[p as usize]);
            let Some((rl, _)) = rp else { continue };
            for x in each(&la.clone()) {
                // as in bison, a shift that has lost once is out of the comparison
                if shift[x] == ERR {
                    continue;
                }
                let Some((tl, ta)) = g.prec[x] else { continue };
                let clear = |la: &mut Bits| la[x / 64] &= !(1u64 << (x % 64));
                if tl > rl {
                    clear(la);
                } else if tl < rl {
                    shift[x] = ERR;
                } else {
                    match ta {
                        Assoc::Left => shift[x] = ERR,
                        Assoc::Right => clear(la),
                        Assoc::Nonassoc => {
                            shift[x] = ERR;
                            clear(la);
                            erased[x] = true;
                        }
                    }
                }
            }
        }
        for x in 0..nt {
            let mut a = shift[x];
            if a == ERR && erased[x] {
                // bison records an explicit error action
                t.action[s * nt + x] = ERR;
                continue;
            }
            let mut cands = reds.iter().filter(move |(_, la)| la[x / 64] >> (x % 64) & 1 == 1).map(|p| p.0);
            if x == 0 && cands.clone().any(|r| r as usize == nr) {
                // accepting is a shift of $end, which has no precedence
                t.sr_unresolved += cands.count() - 1;
                t.action[s * nt + x] = ACC;
                continue;
            }
            if let Some(r) = cands.next() {
                if a != ERR {
                    t.sr_unresolved += 1;
                } else {
                    a = if r as usize == nr { ACC } else { -(r as i32 + 1) };
                    t.rr += cands.count();
                }
            }
            t.action[s * nt + x] = a;
        }
    }
    t
}

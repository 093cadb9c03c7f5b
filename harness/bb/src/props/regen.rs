//! The committed parser against the parser the generators produce from gram.y, scan.l and kwlist.h.
//! The committed build runs the check; the regenerated one is a peer process (VERIF_PEER).
use super::engine::{self, Peer};
use crate::eng::*;
use crate::wb::{self, Tab};
use std::collections::{BTreeMap, HashMap, VecDeque};

/// peer mode: the parse tables
pub fn dump(out: &str) -> i32 {
    let w = World::new();
    match Tab::own(&w) {
        Some(t) => {
            t.write(out);
            0
        }
        None => 3,
    }
}

pub fn regeneration(c: &Ctx, w: &World) -> ModelCounts {
    let peer = Peer::new(c, w, ("regenerated", "committed"));
    let mut cand: Vec<String> = vec![];
    let (mut states, mut trans) = (0, 0);
    // parse tables: both bisimilar to the reference automaton, hence to each other
    let path = format!("{}/parse-tables", peer.dir);
    let own = Tab::own(w);
    if own.is_some() && peer.call(&["peer-parse-tables", &path]).0 {
        let other = Tab::read(&path);
        for (t, who) in [(own.as_ref().unwrap(), "the committed tables"), (&other, "the regenerated tables")] {
            match wb::bisimulate_tab(c, w, t, who) {
                Some((s, n, found)) => {
                    states += s;
                    trans += n;
                    cand.extend(found.into_iter().map(|f| f.0));
                }
                None => c.note(format!("{who} cannot be explored")),
            }
        }
    } else {
        c.note("the hooks are off: tables compared on texts only");
    }
    // scanner automata: product of the committed and the regenerated one in every scanner state
    let (s, n) = automata(c, &peer, &mut cand);
    let mut seen = std::collections::HashSet::new();
    cand.retain(|t| seen.insert(h64(t)));
    cand.sort_by_key(|t| t.len());
    c.put("differences_tried_as_texts", cand.len() as u64);
    cand.truncate(4000);
    let bad = peer.compare(&cand, "found by comparing the tables");
    println!("  {} candidate texts from the tables, {bad} differ", cand.len());
    peer.compare_all(c.level());
    // the regenerated parser with the other scanner engine
    if let Ok(bin) = std::env::var("VERIF_PEER_REGEX") {
        let mut regex = Peer::new(c, w, ("regenerated, scanning with regular expressions", "committed"));
        regex.bin = bin;
        regex.compare_all(if c.quick() { "small" } else { "quick" });
    }
    ModelCounts::Given(states + s, trans + n)
}

/// C19 and C22 when the generator cannot be driven directly: this build is of the regenerated parser
pub fn whole_grammar(c: &Ctx, w: &World) -> ModelCounts {
    let b = wb::bisimulate(c, w, Aspect::Full);
    c.sweep_list(w, "all rules", &super::grammar::rule_texts(w), Aspect::Full);
    if b.is_none() {
        super::grammar::entry_cover(c, w, Aspect::Full);
    }
    ModelCounts::Parser
}

fn automata(c: &Ctx, peer: &Peer, cand: &mut Vec<String>) -> (u64, u64) {
    let (own, other) = (format!("{}/automata.own", peer.dir), format!("{}/automata.other", peer.dir));
    if engine::tables(&own) != 0 || !peer.call(&["peer-tables", &other]).0 {
        c.note("the hooks are off: automata compared on texts only");
        return (0, 0);
    }
    let (a, b) = (engine::read_automata(&own), engine::read_automata(&other));
    let b: HashMap<&str, &engine::Automaton> = b.iter().map(|x| (x.0.as_str(), x)).collect();
    let (mut states, mut trans) = (0, 0);
    for (name, tr, ac) in &a {
        let Some((_, btr, bac)) = b.get(name.as_str()) else {
            c.note(format!("no regenerated automaton for {name}"));
            continue;
        };
        let mut seen: HashMap<(u8, u8), Vec<u8>> = HashMap::new();
        let mut queue = VecDeque::from([(0u8, 0u8)]);
        seen.insert((0, 0), vec![]);
        let mut map: BTreeMap<u8, BTreeMap<u8, Vec<u8>>> = BTreeMap::new();
        let mut odd: Vec<Vec<u8>> = vec![];
        while let Some((p, q)) = queue.pop_front() {
            let path = seen[&(p, q)].clone();
            map.entry(ac[p as usize]).or_default().entry(bac[q as usize]).or_insert_with(|| path.clone());
            for x in 0..=255u8 {
                trans += 1;
                let mut np = path.clone();
                np.push(x);
                match (tr[p as usize][x as usize], btr[q as usize][x as usize]) {
                    (255, 255) => {}
                    (255, _) | (_, 255) => odd.push(np),
                    n => {
                        if !seen.contains_key(&n) {
                            seen.insert(n, np);
                            queue.push_back(n);
                        }
                    }
                }
            }
        }
        states += seen.len() as u64;
        // rules must correspond one to one
        let mut back: BTreeMap<u8, u8> = BTreeMap::new();
        for (k, m) in map {
            let many = m.len() > 1;
            for (l, p) in m {
                if many || *back.entry(l).or_insert(k) != k {
                    odd.push(p);
                }
            }
        }
        println!("  product for {name}: {} and {} states, {} product states, {} differences", ac.len(), bac.len(), seen.len(), odd.len());
        for mut p in odd.into_iter().take(300) {
            // 0 stands for the end of the text; a path may stop inside a character
            if p.last() == Some(&0) {
                p.pop();
            }
            let mut texts = vec![];
            for more in ["", "\u{80}", "\u{a9}"] {
                let mut v = p.clone();
                v.extend(more.as_bytes().iter().skip(1));
                if let Ok(t) = String::from_utf8(v) {
                    texts.push(t);
                    break;
                }
            }
            for t in texts {
                for x in super::lexical::state_context(name) {
                    for s in ["", " b", "'", "' b", "\"", "*/ b", "$$ b"] {
                        cand.push(format!("{x}{t}{s}"));
                    }
                }
            }
        }
    }
    (states, trans)
}

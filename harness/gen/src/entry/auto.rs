//! C20: the automata built from small sets of patterns, against position automata computed from the
//! syntax trees of the patterns. The product of both is explored completely: every reachable pair of
//! states must agree on which rule, if any, the text read so far matches.
use super::report::{Ctx, h64};
use automata::{FlexPatternDef, NameDefinition, to_flex_pattern_dfa};
use std::collections::{HashSet, VecDeque};
use std::sync::atomic::Ordering::Relaxed;

/// set of bytes
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Set([u64; 4]);

impl Set {
    const NONE: Set = Set([0; 4]);
    fn of(bs: &[u8]) -> Set {
        let mut s = Set::NONE;
        bs.iter().for_each(|b| s.add(*b));
        s
    }
    fn add(&mut self, b: u8) {
        self.0[b as usize / 64] |= 1 << (b % 64);
    }
    fn has(&self, b: u8) -> bool {
        self.0[b as usize / 64] >> (b % 64) & 1 == 1
    }
    /// every byte but these and the end marker
    fn not(&self) -> Set {
        let mut s = Set([!self.0[0], !self.0[1], !self.0[2], !self.0[3]]);
        s.0[0] &= !1;
        s
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Re {
    Bytes(Set),
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    Star(Box<Re>),
    Rep(Box<Re>, usize, usize),
}

/// Glushkov's position automaton of one pattern
#[derive(Default)]
struct Pos {
    sets: Vec<Set>,
    follow: Vec<u64>,
    null: bool,
    first: u64,
    last: u64,
}
struct Part {
    null: bool,
    first: u64,
    last: u64,
}

impl Pos {
    fn new(r: &Re) -> Pos {
        let mut p = Pos::default();
        let q = p.part(r);
        (p.null, p.first, p.last) = (q.null, q.first, q.last);
        p
    }
    fn count(r: &Re) -> usize {
        match r {
            Re::Bytes(_) => 1,
            Re::Seq(v) | Re::Alt(v) => v.iter().map(Pos::count).sum(),
            Re::Star(r) => Pos::count(r),
            Re::Rep(r, _, n) => n * Pos::count(r),
        }
    }
    fn fits(r: &Re) -> bool {
        Pos::count(r) <= 64
    }
    fn link(&mut self, last: u64, first: u64) {
        for i in 0..self.sets.len() {
            if last >> i & 1 == 1 {
                self.follow[i] |= first;
            }
        }
    }
    fn seq(&mut self, p: Part, q: Part) -> Part {
        self.link(p.last, q.first);
        Part {
            null: p.null && q.null,
            first: if p.null { p.first | q.first } else { p.first },
            last: if q.null { p.last | q.last } else { q.last },
        }
    }
    fn part(&mut self, r: &Re) -> Part {
        match r {
            Re::Bytes(s) => {
                assert!(self.sets.len() < 64, "pattern too long for the model");
                let b = 1u64 << self.sets.len();
                self.sets.push(*s);
                self.follow.push(0);
                Part { null: false, first: b, last: b }
            }
            Re::Seq(v) => {
                let mut p = Part { null: true, first: 0, last: 0 };
                for r in v {
                    let q = self.part(r);
                    p = self.seq(p, q);
                }
                p
            }
            Re::Alt(v) => {
                let mut p = Part { null: false, first: 0, last: 0 };
                for r in v {
                    let q = self.part(r);
                    p = Part { null: p.null | q.null, first: p.first | q.first, last: p.last | q.last };
                }
                p
            }
            Re::Star(r) => {
                let p = self.part(r);
                self.link(p.last, p.first);
                Part { null: true, ..p }
            }
            Re::Rep(r, min, max) => {
                let mut p = Part { null: true, first: 0, last: 0 };
                for i in 0..*max {
                    let mut q = self.part(r);
                    q.null |= i >= *min;
                    p = self.seq(p, q);
                }
                p
            }
        }
    }
}

/// a pattern with its meaning; binding strength 0 alternative, 1 sequence, 2 single
#[derive(Clone)]
pub struct Pat {
    pub text: String,
    pub re: Re,
    pub bind: u8,
}

fn single(t: &str, s: Set) -> Pat {
    Pat { text: t.into(), re: Re::Bytes(s), bind: 2 }
}
fn wrap(p: &Pat, min: u8) -> String {
    if p.bind < min { format!("({})", p.text) } else { p.text.clone() }
}
fn plus(r: &Re) -> Re {
    Re::Seq(vec![r.clone(), Re::Star(r.clone().into())])
}

fn postfix(p: &Pat) -> Vec<Pat> {
    let b = |r: &Re| Box::new(r.clone());
    [
        ("*", Re::Star(b(&p.re))),
        ("+", plus(&p.re)),
        ("?", Re::Rep(b(&p.re), 0, 1)),
        ("{2}", Re::Rep(b(&p.re), 2, 2)),
        ("{1,2}", Re::Rep(b(&p.re), 1, 2)),
    ]
    .into_iter()
    .map(|(o, re)| Pat { text: format!("{}{o}", wrap(p, 2)), re, bind: 2 })
    .collect()
}
fn seq(p: &Pat, q: &Pat) -> Pat {
    Pat { text: wrap(p, 1) + &wrap(q, 1), re: Re::Seq(vec![p.re.clone(), q.re.clone()]), bind: 1 }
}
fn alt(p: &Pat, q: &Pat) -> Pat {
    Pat { text: format!("{}|{}", p.text, q.text), re: Re::Alt(vec![p.re.clone(), q.re.clone()]), bind: 0 }
}

/// named definitions available to every pattern
pub fn names() -> Vec<(String, Pat)> {
    let a = single("a", Set::of(b"a"));
    let b = single("b", Set::of(b"b"));
    let n1 = alt(&a, &seq(&b, &a));
    let r1 = Pat { text: "{n1}".into(), re: n1.re.clone(), bind: 2 };
    let n2 = seq(&r1, &postfix(&b)[2]);
    vec![("n1".into(), n1), ("n2".into(), n2)]
}

/// '.' as this build understands it; see dot_meaning
static DOT_NEWLINE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn dot() -> Pat {
    single(".", if DOT_NEWLINE.load(Relaxed) { Set::NONE.not() } else { Set::of(b"\n").not() })
}

/// In flex '.' is any byte but a line break.
fn dot_meaning(c: &Ctx) {
    let defs = [FlexPatternDef { state_set: vec![0], pattern: ".".into() }];
    let Ok(d) = std::panic::catch_unwind(|| to_flex_pattern_dfa(&defs, &[])) else { return };
    let to = |b: usize| d[0].states[0].transitions[b];
    let newline = to(10) == to(b'a' as usize) && to(10) < d[0].states.len();
    DOT_NEWLINE.store(newline, Relaxed);
    if newline {
        c.known("the pattern . matches a line break");
    }
}

fn leaves() -> Vec<Pat> {
    let mut v = vec![
        single("a", Set::of(b"a")),
        single("b", Set::of(b"b")),
        single("[ab]", Set::of(b"ab")),
        single("[^a]", Set::of(b"a").not()),
        dot(),
        Pat { text: "\"ab\"".into(), re: Re::Seq(vec![Re::Bytes(Set::of(b"a")), Re::Bytes(Set::of(b"b"))]), bind: 2 },
    ];
    for (n, p) in names() {
        v.push(Pat { text: format!("{{{n}}}"), re: p.re, bind: 2 });
    }
    v
}

/// all patterns of sizes 1..=max (number of leaves and operators)
fn patterns(max: usize) -> Vec<Vec<Pat>> {
    let mut by: Vec<Vec<Pat>> = vec![vec![], leaves()];
    for n in 2..=max {
        let mut v: Vec<Pat> = by[n - 1].iter().flat_map(postfix).collect();
        for i in 1..n - 1 {
            for p in &by[i] {
                for q in &by[n - 1 - i] {
                    v.push(seq(p, q));
                    v.push(alt(p, q));
                }
            }
        }
        let mut seen = HashSet::new();
        v.retain(|p| seen.insert(p.text.clone()));
        by.push(v);
    }
    by
}

/// judge a set of patterns, each with the scanner states it belongs to
fn judge(c: &Ctx, set: &[(&Pat, Vec<usize>)]) {
    judge_with(c, set, &names())
}

fn judge_with(c: &Ctx, set: &[(&Pat, Vec<usize>)], names: &[(String, Pat)]) {
    let show = || {
        let d = names.iter().map(|(n, p)| format!("{n} {}", p.text));
        d.chain(set.iter().map(|(p, s)| format!("<{s:?}> {}", p.text))).collect::<Vec<_>>().join("\n")
    };
    let defs: Vec<FlexPatternDef> =
        set.iter().map(|(p, s)| FlexPatternDef { state_set: s.clone(), pattern: p.text.clone() }).collect();
    let named: Vec<NameDefinition> =
        names.iter().map(|(n, p)| NameDefinition { name: n.clone(), definition: p.text.clone() }).collect();
    let Ok(dfas) = std::panic::catch_unwind(|| refpg::watch::guard(&show(), || to_flex_pattern_dfa(&defs, &named))) else {
        c.violation(&show(), "the construction panics".into());
        return;
    };
    c.traces.fetch_add(1, Relaxed);
    let ns = set.iter().flat_map(|x| x.1.iter()).max().unwrap() + 1;
    if dfas.len() != ns {
        c.violation(&show(), format!("{ns} scanner states, {} automata", dfas.len()));
        return;
    }
    for st in 0..ns {
        let mine: Vec<(u32, Pos)> = set
            .iter()
            .enumerate()
            .filter(|(_, (_, s))| s.contains(&st))
            .map(|(i, (p, _))| (i as u32, Pos::new(&p.re)))
            .collect();
        // bytes that no pattern tells apart
        let mut classes: Vec<u8> = vec![];
        let mut sigs = HashSet::new();
        let sig = |b: u8| -> Vec<bool> { mine.iter().flat_map(|(_, p)| p.sets.iter().map(move |s| s.has(b))).collect() };
        let mut class_of = vec![];
        for b in 0..=255u8 {
            let s = h64(&sig(b));
            if sigs.insert(s) {
                classes.push(s as u8);
            }
            class_of.push(s);
        }
        let dfa = &dfas[st];
        type S = (Option<usize>, Option<Vec<u64>>);
        let mut seen: HashSet<S> = HashSet::new();
        // with the text that leads there and the rule of its longest accepted prefix
        let mut todo: VecDeque<(S, Vec<u8>, Option<u32>)> = VecDeque::new();
        // None in the second part: nothing read yet
        let s0: S = (Some(0), None);
        seen.insert(s0.clone());
        todo.push_back((s0, vec![], None));
        let mut trans = 0;
        while let Some(((q, m), path, before)) = todo.pop_front() {
            let got = q.and_then(|q| dfa.states[q].accept_lexer_rule_id);
            let want = match &m {
                None => mine.iter().find(|(_, p)| p.null).map(|x| x.0),
                Some(v) => mine.iter().zip(v).find(|((_, p), v)| p.last & **v != 0).map(|((i, _), _)| *i),
            };
            if got != want {
                c.violation(
                    &show(),
                    format!("scanner state {st}, after {:?}: expected rule {want:?}, got {got:?}", String::from_utf8_lossy(&path)),
                );
                return;
            }
            let step = |b: u8| -> Vec<u64> {
                mine.iter()
                    .enumerate()
                    .map(|(k, (_, p))| {
                        let cand = match &m {
                            None => p.first,
                            Some(v) => {
                                let mut f = 0;
                                let mut x = v[k];
                                while x != 0 {
                                    f |= p.follow[x.trailing_zeros() as usize];
                                    x &= x - 1;
                                }
                                f
                            }
                        };
                        let mut r = 0;
                        let mut x = cand;
                        while x != 0 {
                            let i = x.trailing_zeros();
                            if p.sets[i as usize].has(b) {
                                r |= 1 << i;
                            }
                            x &= x - 1;
                        }
                        r
                    })
                    .collect()
            };
            // running the automaton over a text: the longest prefix counts, and at its end the end marker
            let accepting = |v: &[u64]| mine.iter().zip(v).find(|((_, p), v)| p.last & **v != 0).map(|((i, _), _)| *i);
            let last = want.or(before);
            let at_end = accepting(&step(0)).or(last);
            let run = |t: &[u8], want: Option<u32>| {
                let got = std::panic::catch_unwind(|| dfa.match_bytes(t));
                if !matches!(got, Ok(g) if g == want) {
                    c.violation(
                        &show(),
                        format!("scanner state {st}, run over {:?}: expected rule {want:?}, got {:?}", String::from_utf8_lossy(t), got.ok()),
                    );
                    return false;
                }
                true
            };
            if !run(&path, at_end) {
                return;
            }
            let mut stuck = 0;
            let mut memo: Vec<(u64, Vec<u64>)> = vec![];
            for b in 0..=255u8 {
                trans += 1;
                let n = match memo.iter().find(|x| x.0 == class_of[b as usize]) {
                    Some(x) => x.1.clone(),
                    None => {
                        let n = step(b);
                        memo.push((class_of[b as usize], n.clone()));
                        n
                    }
                };
                let d = q.and_then(|q| match dfa.states[q].transitions[b as usize] {
                    t if t == automata::dfa::INVALID_STATE => None,
                    t => Some(t),
                });
                if d.is_none() && n.iter().all(|x| *x == 0) {
                    if stuck < 2 {
                        stuck += 1;
                        for tail in ["", "a", "bb"] {
                            let mut t = path.clone();
                            t.push(b);
                            t.extend(tail.as_bytes());
                            if !run(&t, last) {
                                return;
                            }
                        }
                    }
                    continue;
                }
                if d.is_some_and(|d| d >= dfa.states.len()) {
                    c.violation(&show(), format!("scanner state {st}: transition out of range"));
                    return;
                }
                let s: S = (d, Some(n));
                if !seen.contains(&s) {
                    seen.insert(s.clone());
                    let mut p = path.clone();
                    p.push(b);
                    todo.push_back((s, p, last));
                }
            }
            if seen.len() > 100_000 {
                c.violation(&show(), "the product does not close".into());
                return;
            }
        }
        c.states.fetch_add(seen.len() as u64, Relaxed);
        c.transitions.fetch_add(trans, Relaxed);
        c.outcome(seen.len() as u64);
    }
}

/// The meaning of the inside of a character class as flex defines it; None where flex reports an
/// error or where the text is outside the property.
fn class_meaning(items: &[(&str, u8, bool)]) -> Option<Set> {
    // (text, byte, escaped)
    let mut i = 0;
    let mut neg = false;
    if items.first().is_some_and(|x| x.0 == "^") {
        neg = true;
        i = 1;
    }
    if i == items.len() {
        return None;
    }
    let start = i;
    let mut s = Set::NONE;
    while i < items.len() {
        let minus = |k: usize| items[k].0 == "-";
        // a minus that is neither first nor last is an operator
        if minus(i) && i > start && i + 1 < items.len() {
            return None;
        }
        if i + 2 < items.len() && minus(i + 1) {
            // the end of a range may be a minus only if it is the last item
            if minus(i + 2) && i + 3 < items.len() {
                return None;
            }
            if items[i].1 > items[i + 2].1 {
                return None;
            }
            (items[i].1..=items[i + 2].1).for_each(|b| s.add(b));
            i += 3;
            // what follows a range must not be an operator either
            continue;
        }
        s.add(items[i].1);
        i += 1;
    }
    Some(if neg { s.not() } else { s })
}

fn strings<'a>(items: &[(&'a str, u8, bool)], len: usize, i: u64) -> Vec<(&'a str, u8, bool)> {
    let n = items.len() as u64;
    (0..len).scan(i, |i, _| {
        let x = *i % n;
        *i /= n;
        Some(items[x as usize])
    }).collect()
}

fn classes(c: &Ctx, max: usize) {
    let items = [
        ("a", b'a', false),
        ("c", b'c', false),
        ("-", b'-', false),
        ("^", b'^', false),
        ("\\n", b'\n', true),
        ("\\-", b'-', true),
        ("\\x62", b'b', true),
        ("\\143", b'c', true),
        ("\"", b'"', false),
        ("\\]", b']', true),
        ("\\\\", b'\\', true),
        ("\\xFF", 0xff, true),
        (".", b'.', false),
        ("(", b'(', false),
        ("]", b']', false),
    ];
    for len in 1..=max {
        c.par(&format!("character classes of {len} items"), 15u64.pow(len as u32), |i| {
            let v = strings(&items, len, i);
            // a bracket stands for itself where it comes first only
            let first = (v[0].0 == "^") as usize;
            if v.iter().skip(first + 1).any(|x| x.0 == "]") {
                c.skipped.fetch_add(1, Relaxed);
                return;
            }
            let Some(s) = class_meaning(&v) else {
                c.skipped.fetch_add(1, Relaxed);
                return;
            };
            let text = format!("[{}]", v.iter().map(|x| x.0).collect::<String>());
            let p = single(&text, s);
            judge(c, &[(&p, vec![0])]);
        });
    }
}

fn escapes(c: &Ctx) {
    let mut v: Vec<Pat> = vec![];
    // every escaped byte outside and inside a class, hexadecimal and octal
    for b in 1..=255u8 {
        for t in [format!("\\x{b:02x}"), format!("\\x{b:02X}"), format!("\\{b:03o}")] {
            v.push(single(&t, Set::of(&[b])));
            v.push(single(&format!("[{t}]"), Set::of(&[b])));
            v.push(single(&format!("[^{t}]"), Set::of(&[b]).not()));
        }
    }
    for (t, b) in [("\\a", 7), ("\\b", 8), ("\\f", 12), ("\\t", 9), ("\\r", 13), ("\\n", 10), ("\\v", 11)] {
        v.push(single(t, Set::of(&[b])));
        v.push(single(&format!("[{t}]"), Set::of(&[b])));
    }
    for b in 0x21..0x7fu8 {
        let ch = b as char;
        if !ch.is_ascii_alphanumeric() {
            v.push(single(&format!("\\{ch}"), Set::of(&[b])));
            v.push(single(&format!("[\\{ch}]"), Set::of(&[b])));
            if ch != '"' && ch != '\\' {
                v.push(single(&format!("\"{ch}\""), Set::of(&[b])));
            }
            v.push(single(&format!("\"\\{ch}\""), Set::of(&[b])));
            if ch == ']' || !"\"\\{}()[|*+?./^$<".contains(ch) {
                v.push(single(&ch.to_string(), Set::of(&[b])));
            }
            if !"\\]^-".contains(ch) {
                v.push(single(&format!("[{ch}]"), Set::of(&[b])));
                v.push(single(&format!("[^{ch}]"), Set::of(&[b]).not()));
            }
        } else {
            v.push(single(&ch.to_string(), Set::of(&[b])));
        }
    }
    // escapes inside quotes and outside, before and after other characters (digits among them), alone
    // and repeated; a numeric escape is at most two hexadecimal or three octal digits
    let esc: Vec<(&str, Vec<u8>)> = vec![
        ("\\n", vec![10]),
        ("\\t", vec![9]),
        ("\\a", vec![7]),
        ("\\\"", vec![b'"']),
        ("\\\\", vec![b'\\']),
        ("\\'", vec![b'\'']),
        ("\\x41", vec![0x41]),
        ("\\xE9", vec![0xe9]),
        ("\\x414", vec![0x41, b'4']),
        ("\\x41a", vec![0x41, b'a']),
        ("\\x4g", vec![4, b'g']),
        ("\\101", vec![0x41]),
        ("\\1012", vec![0x41, b'2']),
        ("\\1018", vec![0x41, b'8']),
        ("\\18", vec![1, b'8']),
        ("\\7", vec![7]),
        ("\\8", vec![b'8']),
        ("\\9", vec![b'9']),
        ("\\-", vec![b'-']),
        ("\\]", vec![b']']),
        ("a", vec![b'a']),
        ("4", vec![b'4']),
        ("é", "é".bytes().collect()),
    ];
    for (t, m) in &esc {
        for (u, n) in &esc {
            for (x, k) in [("", None), ("b", Some(b'b'))] {
                // what follows a numeric escape may be one of its digits
                let open = |t: &str, n: &str| {
                    let d = t.trim_start_matches('\\');
                    let (hex, len) = if d.starts_with('x') { (true, 3) } else { (false, 3) };
                    let f = n.bytes().next().unwrap_or(b' ');
                    t.starts_with('\\') && (hex || d.starts_with(|c| ('0'..='7').contains(&c))) && d.len() < len && (if hex { f.is_ascii_hexdigit() } else { (b'0'..=b'7').contains(&f) })
                        && d.bytes().skip(hex as usize).all(|b| if hex { b.is_ascii_hexdigit() } else { (b'0'..=b'7').contains(&b) })
                };
                if open(t, u) || open(u, x) {
                    continue;
                }
                let bytes: Vec<u8> = m.iter().chain(n).copied().chain(k).collect();
                let re = Re::Seq(bytes.iter().map(|b| Re::Bytes(Set::of(&[*b]))).collect());
                v.push(Pat { text: format!("{t}{u}{x}"), re: re.clone(), bind: 1 });
                let q = Pat { text: format!("\"{t}{u}{x}\""), re, bind: 2 };
                v.extend(postfix(&q));
                v.push(seq(&q, &single("a", Set::of(b"a"))));
                v.push(alt(&single("a", Set::of(b"a")), &q));
                v.push(q);
            }
        }
        // in classes
        if m.len() == 1 && *t != "\\-" {
            v.push(single(&format!("[{t}]"), Set::of(m)));
            v.push(single(&format!("[^{t}]"), Set::of(m).not()));
        }
        v.push(single(&format!("[{t}z]"), Set::of(&[&m[..], b"z"].concat())));
    }
    // every range
    let ends: Vec<u8> = (1..=255u8).step_by(1).collect();
    for lo in &ends {
        for hi in [*lo, lo.saturating_add(1), lo.saturating_add(9), lo.saturating_add(100), 255] {
            let all: Vec<u8> = (*lo..=hi).collect();
            v.push(single(&format!("[\\x{lo:02x}-\\x{hi:02x}]"), Set::of(&all)));
            v.push(single(&format!("[^\\x{lo:02x}-\\x{hi:02x}]"), Set::of(&all).not()));
        }
    }
    c.par("escapes, quoted characters and ranges", v.len() as u64, |i| judge(c, &[(&v[i as usize], vec![0])]));
}

/// counted repetition of everything small
fn counted(c: &Ctx, pats: &[Pat], max: usize) {
    let mut v = vec![];
    for p in pats {
        for n in 0..=max {
            v.push(Pat { text: format!("{}{{{n}}}", wrap(p, 2)), re: Re::Rep(p.re.clone().into(), n, n), bind: 2 });
            for m in 0..=n {
                v.push(Pat { text: format!("{}{{{m},{n}}}", wrap(p, 2)), re: Re::Rep(p.re.clone().into(), m, n), bind: 2 });
            }
            if n > 0 {
                let re = Re::Seq(vec![Re::Rep(p.re.clone().into(), n, n), Re::Star(p.re.clone().into())]);
                v.push(Pat { text: format!("{}{{{n},}}", wrap(p, 2)), re, bind: 2 });
            }
        }
    }
    // repetitions of repetitions
    let a = single("a", Set::of(b"a"));
    for p in [(1usize, None), (2, None), (2, Some(2usize)), (0, Some(2)), (1, Some(3))] {
        for q in [(1usize, None), (2, None), (2, Some(2usize)), (0, Some(2)), (1, Some(3))] {
            let rep = |x: &Pat, r: (usize, Option<usize>)| match r {
                (n, None) => Pat {
                    text: format!("{}{{{n},}}", wrap(x, 2)),
                    re: Re::Seq(vec![Re::Rep(x.re.clone().into(), n, n), Re::Star(x.re.clone().into())]),
                    bind: 2,
                },
                (n, Some(m)) => Pat { text: format!("{}{{{n},{m}}}", wrap(x, 2)), re: Re::Rep(x.re.clone().into(), n, m), bind: 2 },
            };
            v.push(rep(&rep(&a, p), q));
            v.push(rep(&seq(&rep(&a, p), &single("b", Set::of(b"b"))), q));
        }
    }
    v.retain(|p| Pos::count(&p.re) < 64);
    let tail = single("b", Set::of(b"b"));
    c.par("counted repetitions", v.len() as u64, |i| {
        judge(c, &[(&v[i as usize], vec![0])]);
        judge(c, &[(&seq(&v[i as usize], &tail), vec![0])]);
    });
}

/// rules with overlapping languages, shared and separate scanner states
fn several(c: &Ctx, pats: &[Pat], n: usize) {
    let subsets = [vec![0], vec![1], vec![0, 1]];
    let per = (pats.len() * 3) as u64;
    c.par(&format!("sequences of {n} rules from {} patterns over two scanner states", pats.len()), per.pow(n as u32), |i| {
        let mut i = i;
        let set: Vec<(&Pat, Vec<usize>)> = (0..n)
            .map(|_| {
                let x = (i % per) as usize;
                i /= per;
                (&pats[x / 3], subsets[x % 3].clone())
            })
            .collect();
        judge(c, &set);
    });
}

/// a pattern for a fixed text
fn literal(t: &str) -> Pat {
    Pat { text: t.into(), re: Re::Seq(t.bytes().map(|b| Re::Bytes(Set::of(&[b]))).collect()), bind: 1 }
}

/// counts of more than one digit
fn large_counts(c: &Ctx, top: usize) {
    let mut v = vec![];
    for p in [single("a", Set::of(b"a")), single("[ab]", Set::of(b"ab")), single("[^a]", Set::of(b"a").not()), single("\\x61", Set::of(b"a"))] {
        for n in 5..=top {
            let re = Re::Seq(vec![Re::Rep(p.re.clone().into(), n, n), Re::Star(p.re.clone().into())]);
            v.push(Pat { text: format!("{}{{{n},}}", p.text), re, bind: 2 });
            v.push(Pat { text: format!("{}{{{n}}}", p.text), re: Re::Rep(p.re.clone().into(), n, n), bind: 2 });
            for m in [0, 1, 2, 9, 10, n - 1, n] {
                if m <= n {
                    v.push(Pat { text: format!("{}{{{m},{n}}}", p.text), re: Re::Rep(p.re.clone().into(), m, n), bind: 2 });
                }
            }
        }
    }
    let tail = single("a", Set::of(b"a"));
    c.par("large counts", v.len() as u64, |i| {
        judge(c, &[(&v[i as usize], vec![0])]);
        judge(c, &[(&seq(&v[i as usize], &tail), vec![0])]);
    });
}

/// many rules: fixed texts of two letters, and a general rule first, in the middle or last
fn many(c: &Ctx) {
    let word = |i: usize| literal(&format!("{}{}", (b'a' + (i / 26 % 26) as u8) as char, (b'a' + (i % 26) as u8) as char));
    let general = {
        let l = single("[a-z]", Set::of(b"abcdefghijklmnopqrstuvwxyz"));
        Pat { text: "[a-z]+".into(), re: plus(&l.re), bind: 2 }
    };
    let sizes = [2usize, 3, 9, 10, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300];
    c.par("many rules", sizes.len() as u64 * 3, |i| {
        let n = sizes[i as usize / 3];
        let mut ps: Vec<Pat> = (0..n).map(word).collect();
        ps.insert([0, n / 2, n][i as usize % 3], general.clone());
        let set: Vec<(&Pat, Vec<usize>)> = ps.iter().map(|p| (p, vec![0])).collect();
        judge(c, &set);
    });
    // many scanner states: each rule in its own, in its own and the next, in all; some without rules
    let states = [3usize, 7, 8, 9, 12, 16, 17, 31, 32, 33, 40];
    c.par("many scanner states", states.len() as u64 * 4, |i| {
        let n = states[i as usize / 4];
        let ps: Vec<Pat> = (0..n).map(word).chain([general.clone()]).collect();
        let set: Vec<(&Pat, Vec<usize>)> = ps
            .iter()
            .enumerate()
            .map(|(k, p)| {
                let s = match i % 4 {
                    3 if k == n => vec![n + 1],
                    _ if k == n => (0..n).rev().collect(),
                    0 => vec![k],
                    // every other scanner state without rules of its own
                    3 => vec![k / 2 * 2],
                    1 => vec![(k + 1) % n, k],
                    _ => (0..n).collect(),
                };
                (p, s)
            })
            .collect();
        judge(c, &set);
    });
    // alternatives and sequences of many parts
    let mut v = vec![];
    for n in [2usize, 3, 5, 8, 9, 16, 17, 20, 31] {
        let ps: Vec<Pat> = (0..n).map(word).collect();
        let mut a = ps[0].clone();
        let mut s = ps[0].clone();
        for p in &ps[1..] {
            a = alt(&a, p);
            s = seq(&s, p);
        }
        v.extend(postfix(&a).into_iter().take(3));
        v.push(Pat { text: format!("({})", s.text), ..s.clone() });
        v.extend([a, s]);
    }
    for d in [2usize, 5, 9, 17, 40] {
        let mut p = single("a", Set::of(b"a"));
        for k in 0..d {
            p = Pat { text: format!("({})", p.text), bind: 2, ..p };
            if k % 3 == 1 {
                p = postfix(&p).swap_remove(2);
            }
        }
        v.push(p);
    }
    v.retain(|p| Pos::fits(&p.re));
    c.par("long and deep patterns", v.len() as u64, |i| judge(c, &[(&v[i as usize], vec![0])]));
}

/// a definition stands for its pattern as a whole, wherever it is used
fn definitions(c: &Ctx, pats: &[&Pat]) {
    let (a, b) = (single("a", Set::of(b"a")), single("b", Set::of(b"b")));
    c.par("definitions", pats.len() as u64, |i| {
        let p = pats[i as usize];
        for name in ["x", "x_y", "decinteger", "A"] {
            let x = Pat { text: format!("{{{name}}}"), re: p.re.clone(), bind: 2 };
            let mut uses = postfix(&x);
            uses.extend([seq(&a, &x), seq(&x, &b), seq(&x, &x), alt(&x, &b), alt(&b, &x)]);
            uses.extend(postfix(&seq(&x, &a)));
            uses.push(seq(&seq(&a, &postfix(&x)[0]), &b));
            uses.push(x.clone());
            // a definition in terms of the other, in both orders of definition
            let y = Pat { text: format!("a{{{name}}}"), re: Re::Seq(vec![a.re.clone(), p.re.clone()]), bind: 1 };
            let u = Pat { text: "{z}+".into(), re: plus(&y.re), bind: 2 };
            let (dx, dz) = ((name.to_string(), p.clone()), ("z".to_string(), y));
            for own in [[dx.clone(), dz.clone()], [dz, dx]] {
                let names: Vec<_> = own.into_iter().chain(names()).collect();
                judge_with(c, &[(&u, vec![0])], &names);
                if name == "x" {
                    for u in &uses {
                        judge_with(c, &[(u, vec![0])], &names);
                    }
                }
            }
        }
    });
}

/// Every state graph of three states (any transitions, accepting states with rules of any order): the
/// automaton built from it, the states it maps to, closures, and the simulation of the graph itself.
#[cfg(feature = "graphs")]
fn graphs(c: &Ctx, edges: usize) {
    use automata::dfa::{DFA, INVALID_STATE, construct_dfa_with_state_mapping};
    use automata::nfa::{NFA, Transition, collect_epsilon_closure};
    const N: usize = 3;
    let syms = [Transition::Epsilon, Transition::Char(b'a'), Transition::Char(0xff)];
    // sets of at most `edges` transitions, as bit sets
    let total = N * N * syms.len();
    let mut sets: Vec<u32> = vec![0];
    let mut layer: Vec<u32> = vec![0];
    for _ in 0..edges {
        let mut next = vec![];
        for s in &layer {
            let from = 32 - s.leading_zeros() as usize;
            next.extend((from..total).map(|e| s | 1 << e));
        }
        sets.extend(&next);
        layer = next;
    }
    let marks = [None, Some(0u32), Some(1)];
    let per = marks.len().pow(N as u32) as u64;
    c.par(&format!("state graphs with up to {edges} transitions"), sets.len() as u64 * per, |i| {
        let g = sets[(i / per) as usize];
        let mut m = i % per;
        let acc: Vec<Option<u32>> = (0..N)
            .map(|_| {
                let r = marks[(m % 3) as usize];
                m /= 3;
                r
            })
            .collect();
        let edge = |a: usize, k: usize, b: usize| g >> (a * N * syms.len() + k * N + b) & 1 == 1;
        let show = || {
            let mut t = format!("accepting: {acc:?};");
            for a in 0..N {
                for (k, s) in syms.iter().enumerate() {
                    for b in 0..N {
                        if edge(a, k, b) {
                            t += &format!(" {a} -{s:?}-> {b};");
                        }
                    }
                }
            }
            t
        };
        let close = |mut s: u32| loop {
            let mut n = s;
            for a in 0..N {
                for b in 0..N {
                    if s >> a & 1 == 1 && edge(a, 0, b) {
                        n |= 1 << b;
                    }
                }
            }
            if n == s {
                return s;
            }
            s = n;
        };
        let step = |s: u32, k: usize| {
            let mut n = 0;
            for a in 0..N {
                for b in 0..N {
                    if s >> a & 1 == 1 && edge(a, k, b) {
                        n |= 1 << b;
                    }
                }
            }
            close(n)
        };
        // sets from which nothing can match any more may be left out
        let alive = |s: u32| {
            let (mut r, mut n) = (0, close(s));
            while n != r {
                r = n;
                n = r | step(r, 1) | step(r, 2);
            }
            (0..N).any(|a| r >> a & 1 == 1 && acc[a].is_some())
        };
        let rule = |s: u32| (0..N).filter(|a| s >> a & 1 == 1).filter_map(|a| acc[a]).min();
        c.traces.fetch_add(1, Relaxed);
        let res = std::panic::catch_unwind(|| {
            refpg::watch::guard(&show(), || -> Result<(u64, u64), String> {
                let nfa = NFA::new();
                let st: Vec<_> = (0..N).map(|_| nfa.new_state()).collect();
                for a in 0..N {
                    for (k, s) in syms.iter().enumerate() {
                        for b in 0..N {
                            if edge(a, k, b) {
                                st[a].add_transition(st[b], *s);
                            }
                        }
                    }
                    if let Some(r) = acc[a] {
                        st[a].set_accept(r);
                    }
                }
                for (a, s) in st.iter().enumerate() {
                    let mut set = std::collections::BTreeSet::new();
                    let got = collect_epsilon_closure(&mut set, s);
                    let ids: u32 = set.iter().map(|x| 1 << x.state_id).sum();
                    if ids != close(1 << a) || got != rule(ids) {
                        return Err(format!("closure of {a}: {ids:b}, rule {got:?}"));
                    }
                }
                let mut map: Vec<Vec<usize>> = vec![];
                let mapped = construct_dfa_with_state_mapping(st[0], Some(&mut map));
                let dfa = DFA::from(st[0]);
                if mapped.states != dfa.states || map.len() != dfa.states.len() {
                    return Err("built twice: not the same automaton, or states without their origin".into());
                }
                let mut seen: HashSet<(usize, u32)> = HashSet::new();
                let start = close(1);
                // with a text that leads there, the rule it matches last, and whether a prefix matches
                let mut todo = vec![(0usize, start, vec![], rule(start))];
                seen.insert((0, start));
                let mut n = 0;
                while let Some((q, s, path, last)) = todo.pop() {
                    let d = &dfa.states[q];
                    if d.accept_lexer_rule_id != rule(s) || map[q].iter().map(|x| 1 << x).sum::<u32>() != s {
                        return Err(format!("after {path:?}: rule {:?}, states {:?}", d.accept_lexer_rule_id, map[q]));
                    }
                    if dfa.match_bytes(&path) != last {
                        return Err(format!("run over {path:?}: {:?}", dfa.match_bytes(&path)));
                    }
                    if nfa.matches_bytes(st[0], &path) != last.is_some() {
                        return Err(format!("simulation over {path:?}"));
                    }
                    for b in 0..256usize {
                        let to = match b {
                            0x61 => step(s, 1),
                            0xff => step(s, 2),
                            _ => 0,
                        };
                        n += 1;
                        match (d.transitions[b], to) {
                            (INVALID_STATE, to) if to == 0 || !alive(to) => {}
                            (t, to) if t < dfa.states.len() && to != 0 => {
                                if seen.insert((t, to)) {
                                    let mut p = path.clone();
                                    p.push(b as u8);
                                    todo.push((t, to, p, rule(to).or(last)));
                                }
                            }
                            (t, to) => return Err(format!("after {path:?} byte {b}: state {t}, expected the states {to:b}")),
                        }
                    }
                    // a text that goes on behind the last match, or leaves the graph
                    for tail in [&b"a"[..], b"\xff", b"b", b"a\xffa"] {
                        let (mut x, mut l) = (s, last);
                        for b in tail {
                            x = match b {
                                b'a' => step(x, 1),
                                0xff => step(x, 2),
                                _ => 0,
                            };
                            if x == 0 {
                                break;
                            }
                            l = rule(x).or(l);
                        }
                        let t = [&path[..], tail].concat();
                        if dfa.match_bytes(&t) != l || nfa.matches_bytes(st[0], &t) != l.is_some() {
                            return Err(format!("run over or simulation of {t:?}: {:?}, expected {l:?}", dfa.match_bytes(&t)));
                        }
                    }
                }
                Ok((seen.len() as u64, n))
            })
        });
        match res {
            Ok(Ok((a, b))) => {
                c.states.fetch_add(a, Relaxed);
                c.transitions.fetch_add(b, Relaxed);
                c.outcome(a);
            }
            Ok(Err(e)) => c.violation(&show(), e),
            Err(_) => c.violation(&show(), "panics".into()),
        }
    });
}

/// patterns too long for position sets: their language is a set of lengths of one repeated letter, or
/// one long text; walked letter by letter, with every other byte leading nowhere
fn chains(c: &Ctx) {
    type Acc = Box<dyn Fn(usize) -> bool + Sync + Send>;
    // pattern, definition of `w`, letters, accepted lengths, longest (None: no limit)
    let mut v: Vec<(String, String, Vec<u8>, Acc, Option<usize>)> = vec![];
    for n in [61usize, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1024, 1025] {
        let a = b"a".to_vec();
        let run = "a".repeat(n);
        let mut add = |t: String, acc: Acc, max: Option<usize>| {
            v.push(("{w}".into(), t.clone(), a.clone(), Box::new(move |_| false), max));
            let i = v.len() - 1;
            v[i].3 = acc;
            v.push((t, "b".into(), a.clone(), Box::new(|_| false), max));
        };
        add(format!("a{{{n}}}"), Box::new(move |k| k == n), Some(n));
        add(format!("a{{{n},}}"), Box::new(move |k| k >= n), None);
        add(format!("a{{{},{n}}}", n - 1), Box::new(move |k| k == n || k + 1 == n), Some(n));
        add(format!("(aa){{{n}}}"), Box::new(move |k| k == 2 * n), Some(2 * n));
        add(format!("a{{{n}}}|a{{3}}"), Box::new(move |k| k == n || k == 3), Some(n));
        add(run.clone(), Box::new(move |k| k == n), Some(n));
        add(format!("\"{run}\""), Box::new(move |k| k == n), Some(n));
        add(format!("({run})+"), Box::new(move |k| k > 0 && k % n == 0), None);
        add(format!("{}a{}", "(".repeat(n), ")".repeat(n)), Box::new(move |k| k == 1), Some(1));
        add(format!("{}a{}", "(".repeat(n), ")+".repeat(n)), Box::new(move |k| k >= 1), None);
        if n <= 300 {
            add(format!("a{{0,{n}}}"), Box::new(move |k| k <= n), Some(n));
            add(format!("a{{7,{n}}}"), Box::new(move |k| (7..=n).contains(&k)), Some(n));
        }
        if n <= 130 {
            add("a?".repeat(n), Box::new(move |k| k <= n), Some(n));
            let words: Vec<String> = (1..=n).filter(|k| k % 3 == 1).map(|k| "a".repeat(k)).collect();
            let top = words.last().unwrap().len();
            add(words.join("|"), Box::new(move |k| k <= top && k % 3 == 1), Some(top));
        }
        // every letter once in a while, and classes of one letter
        let letters: Vec<u8> = (0..n).map(|i| b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[i * i % 63]).collect();
        let t = String::from_utf8(letters.clone()).unwrap();
        let cl: String = t.chars().map(|x| format!("[{x}]")).collect();
        for t in [t, cl] {
            v.push((t, "b".into(), letters.clone(), Box::new(move |k| k == n), Some(n)));
        }
    }
    // the accepted lengths of a pattern stand with its definition: the pattern itself takes them from there
    for i in 1..v.len() {
        if v[i - 1].1 == v[i].0 && v[i - 1].0 == "{w}" {
            let (x, y) = v.split_at_mut(i);
            let f: Acc = std::mem::replace(&mut x[i - 1].3, Box::new(|_| false));
            let f = std::sync::Arc::new(f);
            let g = f.clone();
            x[i - 1].3 = Box::new(move |k| f(k));
            y[0].3 = Box::new(move |k| g(k));
        }
    }
    c.par("long chains", v.len() as u64, |i| {
        let (text, def, letters, acc, max) = &v[i as usize];
        let show = || format!("w {def}\n{text}");
        let defs = [FlexPatternDef { state_set: vec![0], pattern: text.clone() }];
        let named = [NameDefinition { name: "w".into(), definition: def.clone() }];
        let Ok(dfas) = std::panic::catch_unwind(|| refpg::watch::guard(&show(), || to_flex_pattern_dfa(&defs, &named))) else {
            c.violation(&show(), "the construction panics".into());
            return;
        };
        c.traces.fetch_add(1, Relaxed);
        let dfa = &dfas[0];
        let end = max.unwrap_or(2100);
        let mut q = 0;
        for k in 0..=end {
            let got = dfa.states[q].accept_lexer_rule_id;
            let want = acc(k).then_some(0);
            if got != want {
                c.violation(&show(), format!("after {k} letters: expected rule {want:?}, got {got:?}"));
                return;
            }
            let next = letters[k % letters.len()];
            let mut to = None;
            for b in 0..=255u8 {
                let t = dfa.states[q].transitions[b as usize];
                let live = b == next && (max.is_none() || k < end);
                if (t != automata::dfa::INVALID_STATE) != live || live && t >= dfa.states.len() {
                    c.violation(&show(), format!("after {k} letters: byte {b} {}", if live { "leads nowhere" } else { "leads on" }));
                    return;
                }
                if live {
                    to = Some(t);
                }
            }
            c.transitions.fetch_add(256, Relaxed);
            match to {
                Some(t) => q = t,
                None => break,
            }
        }
        c.states.fetch_add(end as u64 + 1, Relaxed);
        c.outcome(end as u64);
    });
}

pub fn check(c: &Ctx) {
    dot_meaning(c);
    #[cfg(feature = "graphs")]
    graphs(c, if c.quick { 4 } else { 5 });
    let eof = Pat { text: "<<EOF>>".into(), re: Re::Bytes(Set::of(&[0])), bind: 2 };
    let by = patterns(if c.quick { 5 } else { 6 });
    for (n, v) in by.iter().enumerate().skip(1) {
        let v: Vec<&Pat> = v.iter().filter(|p| Pos::fits(&p.re)).collect();
        c.par(&format!("patterns of size {n}"), v.len() as u64, |i| {
            if i % (v.len() as u64 / 2 + 1) == 1 {
                c.sample(&v[i as usize].text);
            }
            judge(c, &[(v[i as usize], vec![0])])
        });
    }
    classes(c, if c.quick { 4 } else { 5 });
    escapes(c);
    let mut small: Vec<Pat> = by[1].clone();
    small.extend(by[2].clone());
    counted(c, &small, if c.quick { 6 } else { 9 });
    large_counts(c, 60);
    chains(c);
    many(c);
    definitions(c, &by[1].iter().chain(&by[2]).chain(&by[3]).collect::<Vec<_>>());
    let mut one = by[1].clone();
    one.push(eof.clone());
    several(c, &one, 3);
    if !c.quick {
        several(c, &one, 4);
    }
    small.push(eof);
    several(c, &small, 2);
    // all pairs in one scanner state
    let three: Vec<&Pat> = by[1].iter().chain(&by[2]).chain(&by[3]).collect();
    let k = if c.quick { by[1].len() + by[2].len() } else { three.len() };
    c.par("pairs of patterns in one scanner state", (three.len() * k) as u64, |i| {
        let (p, q) = (three[i as usize / k], three[i as usize % k]);
        judge(c, &[(p, vec![0]), (q, vec![0])]);
        judge(c, &[(q, vec![0]), (p, vec![0])]);
    });
}

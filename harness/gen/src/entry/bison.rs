//! Conformance of the reference construction with bison itself (a development aid, not part of any
//! check: `gen bison-conformance DIR`). Every grammar of the spaces of C19 is given to
//! `bison --xml` and the automata are compared.
use super::tables::Spec;
use refpg::lalr;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub struct Conf {
    pub dir: String,
    pub same: AtomicU64,
    pub useless: AtomicU64,
}

fn attr<'a>(l: &'a str, k: &str) -> Option<&'a str> {
    let p = format!("{k}=\"");
    let i = l.find(&p)? + p.len();
    Some(&l[i..i + l[i..].find('"')?])
}

impl Conf {
    pub fn judge(&self, sp: &Spec) -> bool {
        let g = sp.model();
        let t = lalr::build(&g);
        let id = format!("{:?}", std::thread::current().id()).replace(['(', ')'], "");
        let y = format!("{}/{id}.y", self.dir);
        let x = format!("{}/{id}.xml", self.dir);
        let text = sp.text();
        let names: Vec<&str> = g.names[1..g.nt].iter().map(|n| n.as_str()).filter(|n| !n.starts_with('\'')).collect();
        let head = format!("%define lr.default-reduction accepting\n%token {}\n", names.join(" "));
        std::fs::write(&y, (if names.is_empty() { "%define lr.default-reduction accepting\n".to_string() } else { head }) + &text).unwrap();
        let o = std::process::Command::new("bison")
            .args(["-Wnone", &format!("--xml={x}"), "-o", "/dev/null", &y])
            .output()
            .expect("bison");
        if !o.status.success() {
            self.useless.fetch_add(1, Relaxed);
            return t.rr_overlap > 0;
        }
        let xml = std::fs::read_to_string(&x).unwrap();
        // states
        #[derive(Default)]
        struct St {
            shift: HashMap<String, usize>,
            red: HashMap<String, i64>,
        }
        let mut states: Vec<St> = vec![];
        for l in xml.lines() {
            let l = l.trim().replace("&apos;", "'");
            if l.starts_with("<state number") {
                states.push(St::default());
            } else if l.starts_with("<transition ") {
                let n = states.len() - 1;
                states[n].shift.insert(attr(&l, "symbol").unwrap().into(), attr(&l, "state").unwrap().parse().unwrap());
            } else if l.starts_with("<reduction ") && attr(&l, "enabled") == Some("true") {
                let n = states.len() - 1;
                let r = attr(&l, "rule").unwrap();
                states[n].red.insert(attr(&l, "symbol").unwrap().into(), if r == "accept" { -1 } else { r.parse().unwrap() });
            }
        }
        let mut seen = vec![None; t.nstates];
        seen[0] = Some(0usize);
        let mut todo = vec![(0usize, 0usize)];
        let mut fail = |m: String| panic!("{m}\n{text}");
        while let Some((s, q)) = todo.pop() {
            for i in 0..g.names.len() {
                let b = &states[q];
                let n = g.names[i].as_str();
                let mut go = |d: usize, e: usize| {
                    if seen[d].is_none() {
                        seen[d] = Some(e);
                        todo.push((d, e));
                    }
                };
                if i >= g.nt {
                    let d = t.go(s, i - g.nt);
                    if let (true, Some(e)) = (d != u32::MAX, b.shift.get(n)) {
                        go(d as usize, *e);
                    } else if d != u32::MAX || b.shift.contains_key(n) {
                        fail(format!("goto {s} {n}"));
                    }
                    continue;
                }
                let a = t.act(s, i);
                let ok = match a {
                    i32::MAX => b.shift.contains_key("$end"),
                    0 => !b.shift.contains_key(n) && !b.red.contains_key(n),
                    a if a > 0 => match b.shift.get(n) {
                        Some(e) => {
                            go(a as usize - 1, *e);
                            true
                        }
                        None => false,
                    },
                    a => b.red.get(n) == Some(&(-a as i64)) && !b.shift.contains_key(n),
                };
                if !ok {
                    fail(format!("action {s} {n} {a}: {:?} {:?}", b.shift.get(n), b.red.get(n)));
                }
            }
        }
        self.same.fetch_add(1, Relaxed);
        t.rr_overlap > 0
    }
}

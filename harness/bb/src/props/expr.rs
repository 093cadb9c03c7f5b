//! Operator precedence and associativity.
use crate::eng::*;

const BIN: &[&str] = &[
    "OR", "AND", "=", "<", ">", "<=", ">=", "<>", "!=", "IS DISTINCT FROM", "IS NOT DISTINCT FROM", "LIKE", "NOT LIKE", "ILIKE",
    "SIMILAR TO", "NOT SIMILAR TO", "~", "||", "->", "OPERATOR(+)", "OPERATOR(s.~)", "+", "-", "*", "/", "%", "^", "AT TIME ZONE",
    "BETWEEN 1 AND", "NOT BETWEEN 1 AND", "BETWEEN SYMMETRIC 1 AND", "IN (1) OR", "LIKE 'e' ESCAPE", "<@", "= ANY (b) AND", "?",
];
const PRE: &[&str] = &["", "NOT", "-", "+", "~", "OPERATOR(~)", "@"];
const POST: &[&str] = &[
    "", "IS NULL", "ISNULL", "NOTNULL", "IS NOT TRUE", "IS UNKNOWN", "IS OF (int)", "IS DOCUMENT", "IS NORMALIZED", "IS NOT NFC NORMALIZED",
    "IS JSON", "COLLATE \"C\"", "::int", "::int[]", "[1]", "[1:2]", "AT LOCAL", "IN (1, 2)", "NOT IN (SELECT 1)", "OVERLAPS (1, 2)",
    ".x", "~ ALL (ARRAY[1])", "= SOME (SELECT 1)", "LIKE ANY (b)",
];
const CTX: &[(&str, &str)] = &[
    ("SELECT ", ""),
    ("SELECT * FROM t WHERE ", " GROUP BY 1"),
    ("CREATE TABLE t (a int DEFAULT ", " NOT NULL)"),
    ("SELECT f(", ")"),
    ("SELECT 1 ORDER BY ", " NULLS FIRST"),
    ("SELECT CASE WHEN ", " THEN 1 END"),
    ("SELECT (", ")"),
    ("SELECT * FROM a JOIN b ON ", " JOIN c ON true"),
    ("SELECT x BETWEEN ", " AND 2"),
    ("SELECT x IN (", ")"),
    ("INSERT INTO t VALUES (", ") ON CONFLICT DO NOTHING"),
    ("SELECT sum(1) OVER (ORDER BY ", " ROWS 1 PRECEDING)"),
];

const SET: &[&str] = &[
    "UNION", "UNION ALL", "UNION DISTINCT", "INTERSECT", "INTERSECT ALL", "EXCEPT", "EXCEPT ALL",
];
const SIMPLE: &[&str] = &["SELECT 1", "(SELECT 1)", "VALUES (1)", "TABLE t", "SELECT 1 FROM a", "(SELECT 1 LIMIT 1)"];
const TAIL: &[&str] = &["", "ORDER BY 1", "LIMIT 1", "FOR UPDATE", "ORDER BY 1 OFFSET 2"];
const JOIN: &[&str] = &[
    "JOIN", "CROSS JOIN", "NATURAL JOIN", "LEFT JOIN", "FULL OUTER JOIN", ",", "INNER JOIN", "RIGHT JOIN", "NATURAL LEFT JOIN",
];

pub fn precedence(c: &Ctx, w: &World) -> ModelCounts {
    let (nb, np, no) = (BIN.len() as u64, PRE.len() as u64, POST.len() as u64);
    let asp = Aspect::Structure;
    let t = std::time::Instant::now();
    // [pre] a [post] op [pre] b [post] op' c : every choice
    let total = nb * nb * np * np * no;
    let go2 = |i: u64, acc: &mut Acc, ctx: &[(&str, &str)]| {
        let mut k = i;
        let mut take = |n: u64| {
            let r = (k % n) as usize;
            k /= n;
            r
        };
        let (o1, o2, p1, p2, s) = (BIN[take(nb)], BIN[take(nb)], PRE[take(np)], PRE[take(np)], POST[take(no)]);
        for (a, b) in ctx {
            c.judge(w, acc, &format!("{a}{p1} a {o1} {p2} b {s} {o2} c{b}"), asp);
        }
    };
    c.par(w, total, |i, acc| go2(i, acc, &CTX[..1]));
    c.put("space:two binary operators with prefixes and a postfix", total);
    println!("  two operators {:.1}s", t.elapsed().as_secs_f64());
    // postfix at each of the three operands (quick: not at the first and the last at once)
    let (n1, n3) = if c.quick() { (1, no) } else { (no, no) };
    c.par(w, nb * nb * n1 * no * n3, |i, acc| {
        let mut k = i;
        let mut take = |n: u64| {
            let r = (k % n) as usize;
            k /= n;
            r
        };
        let (s1, o1, s2, o2, s3) = (POST[take(n1)], BIN[take(nb)], POST[take(no)], BIN[take(nb)], POST[take(n3)]);
        c.judge(w, acc, &format!("SELECT a {s1} {o1} b {s2} {o2} c {s3}"), asp);
        if c.quick() {
            c.judge(w, acc, &format!("SELECT a {s3} {o1} b {s2} {o2} c"), asp);
        }
    });
    // three operators
    c.par(w, nb * nb * nb, |i, acc| {
        let (x, y, z) = (BIN[(i % nb) as usize], BIN[(i / nb % nb) as usize], BIN[(i / nb / nb) as usize]);
        for p in if c.quick() { &PRE[..3] } else { PRE } {
            c.judge(w, acc, &format!("SELECT a {x} {p} b {y} c {z} d"), asp);
        }
    });
    println!("  three operators {:.1}s", t.elapsed().as_secs_f64());
    // pairs in every context
    c.par(w, nb * nb * no, |i, acc| {
        let (x, y, s) = (BIN[(i % nb) as usize], BIN[(i / nb % nb) as usize], POST[(i / nb / nb) as usize]);
        for (a, b) in CTX {
            c.judge(w, acc, &format!("{a}a {x} b {s} {y} c{b}"), asp);
        }
    });
    // stacks of prefix and postfix operators
    let sp = Strs {
        ctxs: vec![("SELECT ".into(), "a".into()), ("SELECT ".into(), "a IS NULL".into()), ("SELECT ".into(), "a + b ^ c".into())],
        alpha: PRE[1..].iter().map(|s| format!("{s} ")).collect(),
        min: 0,
        max: 5,
    };
    c.sweep(w, "prefix stacks", &sp, asp);
    let sp = Strs {
        ctxs: vec![("SELECT a".into(), "".into()), ("SELECT - a".into(), "".into()), ("SELECT NOT a = b".into(), "".into())],
        alpha: POST[1..].iter().map(|s| format!(" {s}")).collect(),
        min: 0,
        max: if c.quick() { 3 } else { 4 },
    };
    c.sweep(w, "postfix stacks", &sp, asp);
    // set operations
    let mut texts = vec![];
    for s1 in SET {
        for s2 in SET {
            for s3 in SET {
                for (i, a) in SIMPLE.iter().enumerate() {
                    for tail in TAIL {
                        let b = SIMPLE[(i + 1) % SIMPLE.len()];
                        texts.push(format!("{a} {s1} {b} {s2} {a} {s3} {b} {tail}"));
                        texts.push(format!("{a} {s1} ({b} {s2} {a}) {s3} {b} {tail}"));
                        texts.push(format!("SELECT * FROM ({a} {s1} {b} {s2} {a} {tail}) x"));
                        texts.push(format!("INSERT INTO t {a} {s1} {b} {s2} {a} {tail}"));
                    }
                }
            }
        }
    }
    c.sweep_list(w, "set operations", &texts, asp);
    // joins
    let mut texts = vec![];
    let on = ["", "ON true", "USING (a)", "ON a = b AND c"];
    for j1 in JOIN {
        for j2 in JOIN {
            for j3 in JOIN {
                for o1 in on {
                    for o2 in on {
                        texts.push(format!("SELECT * FROM a {j1} b {o1} {j2} c {o2}"));
                        texts.push(format!("SELECT * FROM a {j1} b {j2} c {o1} {o2} {j3} d {o1}"));
                        texts.push(format!("SELECT * FROM a {j1} (b {j2} c {o1}) {o2} {j3} d"));
                    }
                }
            }
        }
    }
    c.sweep_list(w, "joins", &texts, asp);
    // long chains: associativity must not depend on the length
    let mut texts = vec![];
    for o in BIN {
        for n in [4usize, 5, 10, 50, 127, 128, 129, 300] {
            texts.push(format!("SELECT a{}", format!(" {o} b").repeat(n)));
        }
    }
    // two operators in turn
    for o in BIN {
        for q in BIN {
            for n in if c.quick() { [9usize, 40] } else { [33, 150] } {
                texts.push(format!("SELECT a{}", format!(" {o} b {q} c").repeat(n)));
            }
        }
    }
    c.sweep_list(w, "chains", &texts, asp);
    super::lexical::far(c, w, &["a + b * c - d", "NOT a = b AND c OR d", "- a ^ b ^ c", "a <= b = c", "a BETWEEN b AND c AND d"], asp);
    ModelCounts::Parser
}

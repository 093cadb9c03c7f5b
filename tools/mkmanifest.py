"""Rewrites MANIFEST.json from properties.jsonl and the table below."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
ENUM = "exhaustive bounded enumeration of executions of the real parser, each compared with an explicit-state reference model (bison-equivalent LALR(1) automaton and flex-equivalent scanner)"
TECH = {
    "C01": ("exhaustive bounded enumeration of executions of the real parser with a lossless-tree monitor on every one", "all sentences of the grammar's rule-pair cover with every separator in every gap; all texts over a 29-piece alphabet to length 4; sizes across 1- and 2-byte limits"),
    "C02": ("exhaustive bounded enumeration of executions of the real parser under a panic, crash and hang monitor", "all texts to length 3 over 136 characters, all pairs behind 34 constructs, all special-piece strings to length 4, single-point damage at every byte of one sentence per rule, pumped constructs to 3000 levels"),
    "C03": ("explicit-state model checking: bisimulation of the implementation's parse tables with a reference LALR(1) automaton built from gram.y, every state and terminal also replayed through parse()", "the bisimulation covers all 6,473 states and all terminals (unbounded in text length); every reachable (state, terminal) entry, error entries included, is also driven through the public API"),
    "C04": ("explicit-state model checking: bisimulation of parse tables with a reference LALR(1) automaton (reductions compared by rule label and arity), every action entry replayed through parse() and the resulting tree compared node by node", "all states and terminals; all rule-in-rule pairs as texts"),
    "C05": (ENUM, "all arrangements of up to three (thorough: four) operators out of the complete operator list, set operations and joins"),
    "C06": ("explicit-state model checking: every error entry of the reference LALR(1) automaton replayed through parse(), position compared", "every (state, terminal) error entry behind the cheapest prefix of the state, end of text in every state, and layouts with comments and multi-byte text"),
    "C07": (ENUM, "every gap of every rule-pair sentence with every separator pattern; pairs of gaps in short sentences"),
    "C08": ("exhaustive bounded enumeration of executions of the real parser, compared pairwise (relational check over all separator placements)", "every gap of every rule-pair sentence with every separator pattern"),
    "C09": (ENUM, "every keyword in several case patterns and contexts, all one-edit neighbours of all keywords, all short identifiers over the character classes"),
    "C10": (ENUM, "all strings over the number alphabet to length 6 (thorough 7), boundary values in every radix"),
    "C11": (ENUM, "all bodies over the quoting alphabet to length 4 (thorough 5) in every quoting form"),
    "C12": (ENUM, "all strings over the comment alphabet to length 4-6"),
    "C13": (ENUM, "all operator runs to length 4-5 over the full operator alphabet with every neighbour"),
    "C14": (ENUM, "all sequences of three fragments with three separators; unterminated and cut constructs"),
    "C15": (ENUM, "all sequences of up to three trigger words and neighbours, behind every parser state"),
    "C16": (ENUM + ", for each build variant", "all rule-pair sentences with trivia at every gap, in both builds"),
    "C17": ("bisimulation of the two scanner engines (product of the precomputed automata with automata built from the regular expressions), plus exhaustive bounded enumeration of short texts in both builds", "product complete for all 12 scanner states; texts over every character class in every automaton state and short strings"),
    "C18": ("stateless model checking of the real parser: all sequences of three calls over a pool, and all interleavings of concurrent calls under a controlled scheduler (scheduling points: every allocation) with up to two switches, also as the first calls of a process", "all triples of a pool of 90 texts; all schedules of pairs of six texts with one switch, of ten pairs with two"),
    "C19": ("exhaustive enumeration of all small grammars; for each, bisimulation of the tables of the real generator (uncompressed and compressed) with a reference LALR construction, itself compared with bison on every one of these grammars", "all grammars within the stated bounds on rules, lengths and symbols; state space of every grammar explored completely"),
    "C20": ("exhaustive enumeration of all small pattern sets; for each, complete exploration of the product of the real automata with position automata of the patterns", "all patterns and pattern pairs within the stated size; products explored completely"),
    "C21": ("bisimulation of committed and regenerated parse tables (through the reference automaton), complete product of committed and regenerated scanner automata, exhaustive bounded enumeration of texts in both builds", "tables and automata complete; texts cover every rule, keyword and short string over the scanner's alphabet"),
    "C22": ("exhaustive enumeration of file layouts and contents on the real readers, compared with the abstract file they were written from", "all single and paired layouts at all places, all short sequences of alternatives, declarations and scanner-file pieces"),
    "C23": ("exhaustive enumeration of statement sequences on the real parser, compared with the statements parsed alone", "all pairs of a pool of about 200 statements, all triples of a subset, long repetitions"),
    "C24": (ENUM + ", through both front ends", "all rule-pair sentences through the web binding, a spread of them through the command line tool"),
}
checks, na = [], []
for p in props:
    i = p["id"]
    t, note = TECH[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "technique": t,
        "level": "model_checking",
        "level_note": note,
        "evidence_file": f"evidence/{i}.json",
    })
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {
        "guard": "cfg(pgcst_verif)",
        "enable": "RUSTFLAGS=\"--cfg pgcst_verif\" cargo build --release --features hooks in /verif/harness/bb, and in a copy of /verif/harness/gen made by its prepare.sh (both done by check.sh)",
        "source_commits": ["c2d8cd3", "6327e62", "7488ed1"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "check.sh builds the harness against /repo's working tree in a fresh directory for every run; known findings are in known-findings.txt.",
}
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)

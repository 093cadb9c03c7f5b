import json
P="crates/postgresql-cst-parser/src/"
def p(id,title,st,over,q,why,files,mech,state=None,obs=None,hook=None):
    a={"files":[P+f if not f.startswith("crates/") else f for f in files],
       "mechanism":[{"name":n,"where":P+w if not w.startswith("crates/") else w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":P+w} for n,m,w in state]
    a["observe_at"]=obs or ["postgresql_cst_parser::parse"]
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    return {"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a}
L=[]
L.append(p("C01","The tree of an accepted text spells the text exactly",
 "Whenever a text is accepted, the leaf tokens of the returned tree, read from left to right, concatenate to exactly the input text, byte for byte. Every token's range is the place its text occupies in the input: ranges are contiguous, start at 0, end at the length of the text and fall on character boundaries. Every node's range and text are exactly what its leaves cover.",
 ["inputs"],"all accepted UTF-8 texts, including any white space, comments, multi-byte characters and literal forms, at any size",
 "The tests look at one complete tree and at a few positions; that no byte is lost, duplicated or misplaced must hold for every layout of trivia around every construct.",
 ["cst.rs","lexer/generated.rs"],[("pieces between consumed tokens are turned into white space and comments while shifting and reducing","cst.rs:parse"),("token boundaries","lexer.rs:lex"),("emission of tokens by source range","cst.rs:Parser::parse_rec")],
 [("start_byte_pos/end_byte_pos","source range carried by every parse-stack entry","cst.rs:Node")]))
L.append(p("C02","Parsing always returns: no panic, abort or hang on any text",
 "Parsing any UTF-8 text returns, in time that stays reasonable for its size, either a tree or one of the declared errors; it never panics, never aborts the process and never loops. Positions reported in errors lie inside the text (at most its length), and the range of a syntax error falls on character boundaries.",
 ["inputs"],"all UTF-8 texts: arbitrary characters, truncated or damaged statements, unusual literals, NUL characters, nesting up to thousands of levels",
 "Tests run well-formed SQL and six malformed literals; the failing texts are the ones nobody thought of, such as an escape cut by the end of the text or a multi-byte character at the wrong place.",
 ["lexer.rs","lexer/util.rs","lexer/lexer_ported.rs","lexer/generated.rs","cst.rs"],[("character boundaries while matching and skipping","lexer/util.rs:find_match_len"),("escape decoding","lexer/lexer_ported.rs:addunicode"),("integer conversions","lexer/lexer_ported.rs:process_integer_literal"),("token lookup in the tables","cst.rs:parse")]))
L.append(p("C03","A text is accepted exactly when the PostgreSQL grammar derives it",
 "A text made of valid tokens is accepted exactly when its token sequence (after PostgreSQL's look-ahead token rules) is a sentence of PostgreSQL's grammar as resolved by the declared precedences, that is, when a bison-generated LALR(1) parser for gram.y accepts it. Every other text is rejected with an error, never with a tree, and a rejected token sequence is a syntax error while a malformed token is a lexical error.",
 ["inputs"],"all token sequences over the 530-odd terminals, in particular behind every reachable parser state with every terminal as the next token",
 "The grammar has 3,400 rules and its automaton 6,473 states with more than a million entries; the tests touch a few dozen statements, so a wrong compressed-table entry, a dropped rule or a wrong default reduction stays invisible.",
 ["cst.rs","parser.rs","syntax_kind.rs","crates/parser-generator/src/parser_generator/lalr.rs","crates/parser-generator/resources/gram.y"],[("action table lookup (bitmap, defaults, offsets)","cst.rs:lookup_parser_action"),("goto table lookup","cst.rs:lookup_goto_state"),("generated tables","parser.rs"),("table construction","crates/parser-generator/src/parser_generator/lalr.rs:build_lalr1_parse_table")],
 [("parser stack","automaton states with pending nodes","cst.rs:parse")],None,"table lookups and token streams (cfg pgcst_verif)"))
L.append(p("C04","The tree is the derivation: node kinds and nesting follow the grammar",
 "The tree returned for an accepted text is the rightmost derivation that a bison-generated parser for PostgreSQL's gram.y performs: one node per reduction, labelled with the rule's left-hand side, its children the rule's right-hand side in source order, tokens labelled with their terminal, under a single root. The only departures are the documented ones: derivations of nothing are left out, and left-recursive chains keep the nesting that the grammar gives them.",
 ["inputs"],"all accepted texts, with every grammar rule in every place where another rule can contain it and behind every parser state",
 "Snapshot tests pin the trees of a handful of statements; labels and arities are generated for 3,400 rules and 700 node kinds.",
 ["cst.rs","parser.rs","syntax_kind.rs"],[("reduction builds a node from the top of the stack","cst.rs:parse"),("rule table","parser.rs:RULES"),("kind numbering","syntax_kind.rs:SyntaxKind")],None,None,"table lookups (cfg pgcst_verif)"))
L.append(p("C05","Operators nest by PostgreSQL's precedence and associativity",
 "In every accepted expression the nesting of unary, binary, postfix and keyword operators is the one PostgreSQL's precedence table prescribes: a tighter operator's operands are grouped first, left-associative chains nest to the left, right-associative ones to the right. Chains of non-associative operators (such as comparison) without parentheses are rejected, and the same holds for set operations and joins.",
 ["inputs"],"all expressions combining up to four operators from the complete operator list in all arrangements, with and without parentheses",
 "Precedence is a property of every pair of operators in every arrangement; no existing test compares the shape of two different nestings.",
 ["parser.rs","cst.rs","crates/parser-generator/src/parser_generator/lalr.rs"],[("conflict resolution by precedence and associativity","crates/parser-generator/src/parser_generator/lalr.rs:build_lalr1_parse_table"),("precedence declarations","crates/parser-generator/src/parser_generator/bison.rs:parse_assoc"),("generated tables","parser.rs")]))
L.append(p("C06","A syntax error names the first token that cannot continue the text",
 "When a text of valid tokens is rejected, the reported byte range is exactly that of the first token at which no continuation could be accepted, with comments and white space never being that token. If the text ends too early, the range is empty and lies at the end of the text. The error message names the same position.",
 ["inputs"],"all rejected token sequences: every parser state combined with every terminal that the state does not allow, and the end of the text in every state",
 "The existing tests assert two error positions; the location depends on look-ahead, on default reductions and on the tracking of multi-byte text.",
 ["cst.rs"],[("error exit of the parse loop","cst.rs:parse"),("error entries","cst.rs:lookup_parser_action")]))
L.append(p("C07","Comments and white space stay where they are written",
 "In the tree of an accepted text every comment and every maximal run of white space is a token of its own, with its kind, at its own place in the source order. Trivia between two tokens sit in the innermost node that contains both tokens, and trivia before the first or after the last token in the root; only where the construct after a gap begins with parts that derive nothing may the white space behind the gap's last comment sit inside that construct.",
 ["inputs"],"all accepted texts with any trivia at any gap between tokens, before the first and after the last token",
 "Tests check trivia in one or two statements; the placement is decided at every shift and reduce, so each rule and each gap matters.",
 ["cst.rs"],[("extras are attached while shifting and reducing","cst.rs:parse"),("extras before the first and after the last child","cst.rs:Parser::parse_rec")],[("extras","comment and white-space nodes waiting for a parent","cst.rs:parse")]))
L.append(p("C08","White space and comments never change what a text means",
 "Replacing the separators between the tokens of a text by any other non-empty mixture of white space and comments that keeps the tokens apart, or adding such a mixture before, between or after the tokens, never changes whether the text is accepted. It never changes the tree either, apart from the trivia themselves: the same nodes and tokens, in the same nesting, with the same token texts.",
 ["inputs"],"all texts and all ways to put white space, line comments and (nested) block comments between their tokens",
 "A test would have to compare two parses of differently laid out texts, for every rule and every gap; none of the existing tests does.",
 ["lexer/generated.rs","lexer/lexer_ported.rs","cst.rs"],[("comments are skipped by the parse loop and by look-ahead","cst.rs:parse"),("look-ahead skips comments","lexer/lexer_ported.rs:init_tokens")]))
L.append(p("C09","Words are keywords or identifiers exactly as PostgreSQL says",
 "Every word is a keyword token exactly when it is, in any mixture of upper and lower case ASCII letters, one of PostgreSQL's keywords, and otherwise an identifier; a quoted identifier is never a keyword. Identifiers run as far as letters, digits, underscores, dollar signs and non-ASCII characters go, and a keyword's category decides where it may be used as a name, exactly as the grammar's keyword lists say.",
 ["inputs"],"all words: every keyword in every letter case pattern, every one-character change of every keyword, and all short words over the identifier alphabet",
 "There are 491 keywords; the tests use some thirty of them, all spelt in full and in one case.",
 ["lexer/util.rs","lexer/generated.rs","parser.rs"],[("keyword lookup after case folding","lexer/util.rs:get_keyword"),("keyword map","lexer/util.rs:new"),("identifier pattern","lexer/generated.rs")],None,None,"token streams (cfg pgcst_verif)"))
L.append(p("C10","Numbers are cut and classified as PostgreSQL does",
 "Numeric literals end where PostgreSQL ends them and are classified as it does: decimal, hexadecimal, octal and binary integers with single underscores between digits are integer constants when they fit in 32 bits signed and numeric constants otherwise; decimals and exponents are numeric constants; $n is a parameter. Letters glued to a number, incomplete exponents and misplaced underscores are reported as the lexical errors PostgreSQL reports, and '..' never becomes part of a number.",
 ["inputs"],"all texts over digits, underscores, dots, exponents, radix prefixes, signs and neighbouring letters up to a bounded length, and all boundary values of the integer range in every radix",
 "Classification changes at values and at character combinations no test contains (0b111, 1_000, 2147483648, 1..2, 0x_1).",
 ["lexer/lexer_ported.rs","lexer/generated.rs"],[("integer conversion and overflow to numeric","lexer/lexer_ported.rs:process_integer_literal"),("number patterns","lexer/generated.rs")],None,None,"token streams (cfg pgcst_verif)"))
L.append(p("C11","Quoted constructs begin and end where PostgreSQL says",
 "Strings, extended strings, Unicode strings, national, bit and hexadecimal strings, dollar-quoted strings and quoted identifiers each form one token of the right kind that extends exactly to its closing delimiter: doubled quotes, backslash escapes and dollar tags are honoured only where PostgreSQL honours them, and string parts separated by white space containing a newline are one token. A construct whose content is invalid (bad escape, empty identifier, bad Unicode value) or that is not closed is rejected.",
 ["inputs"],"all bodies over quotes, backslashes, dollar signs, escape letters, digits, newlines and multi-byte characters up to a bounded length in every quoting form, followed by every kind of neighbour",
 "Where a literal ends depends on the whole character sequence; the tests contain a few short literals per form.",
 ["lexer/generated.rs","lexer/lexer_ported.rs","lexer/util.rs"],[("exclusive scanner states for each quoting form","lexer/generated.rs"),("escape decoding and surrogate pairs","lexer/lexer_ported.rs:addunicode"),("string continuation","lexer/generated.rs")],[("literal","text of the literal being read","lexer.rs:Lexer"),("state","current scanner state","lexer.rs:Lexer")],None,"token streams (cfg pgcst_verif)"))
L.append(p("C12","Comments and white space are recognised as PostgreSQL does",
 "Line comments run to the end of the line, block comments nest and end at the matching close, and an operator never swallows a comment start. Comments and white space are recognised everywhere outside quoted constructs and nowhere inside them, and the white-space characters are exactly PostgreSQL's (space, tab, newline, carriage return, form feed and vertical tab); an unclosed block comment is an error.",
 ["inputs"],"all texts over comment delimiters, operator characters, quotes, newlines and white-space characters up to a bounded length",
 "Nesting, comment starts inside operators and comment-like text inside literals combine in ways the tests never use.",
 ["lexer/generated.rs"],[("block comment state with nesting depth","lexer/generated.rs"),("operator text is cut before a comment start","lexer/generated.rs")],[("xcdepth","nesting depth of block comments","lexer.rs:Lexer")],None,"token streams (cfg pgcst_verif)"))
L.append(p("C13","Operators are cut by PostgreSQL's longest-match rules",
 "A run of operator characters is one operator token as long as possible, cut before a comment start and stripped of trailing plus and minus signs unless it contains one of the characters that allow them. The results are classified as PostgreSQL does: single self characters, the named comparison, cast, range, assignment and arrow operators with both spellings of not-equal, and generic operators otherwise.",
 ["inputs"],"all runs of operator characters up to a bounded length, followed by every kind of operand or comment, and runs around the length limit",
 "The rules look at the whole run backwards; tests use single well-known operators.",
 ["lexer/generated.rs"],[("operator rule: truncation, sign stripping, classification","lexer/generated.rs")],None,None,"token streams (cfg pgcst_verif)"))
L.append(p("C14","Malformed tokens give PostgreSQL's error at the right place",
 "A text containing a malformed or unterminated token is rejected with the lexical error PostgreSQL raises for it (same message and detail), located at the start of the offending literal or at the offending escape as PostgreSQL does, in bytes. The first malformed token of the text decides, wherever it stands and whatever comes before or after it, also when the tokens before it are not a valid statement.",
 ["inputs"],"all sequences of up to three well-formed and malformed token fragments with every separator, and every way to cut a quoted construct",
 "Six malformed literals are tested, each alone in one statement at one position.",
 ["lexer/generated.rs","lexer/lexer_ported.rs","lexer/parser_error.rs"],[("error positions follow the start of the current literal","lexer/lexer_ported.rs:set_yylloc"),("stack of saved positions for escapes","lexer/lexer_ported.rs:push_yylloc"),("error construction","lexer/parser_error.rs")],[("yylloc","start of the token being read","lexer.rs:Lexer")]))
L.append(p("C15","Look-ahead token pairs are rewritten exactly as PostgreSQL does",
 "The words FORMAT, NOT, NULLS, WITH and WITHOUT take their special look-ahead meaning exactly when the next token, skipping white space and comments, is one of those PostgreSQL lists for them (FORMAT JSON; NOT BETWEEN, IN, LIKE, ILIKE, SIMILAR; NULLS FIRST, LAST; WITH TIME, ORDINALITY; WITHOUT TIME), and keep their plain meaning everywhere else. The decision depends on nothing but the next token.",
 ["inputs"],"all sequences of up to three of the words involved with every kind of neighbour and separator, behind every parser state that can read them",
 "Two of the five words occur in tests, each with one follower and one separator.",
 ["lexer/lexer_ported.rs"],[("rewriting pass over the token list","lexer/lexer_ported.rs:init_tokens")],None,None,"token streams (cfg pgcst_verif)"))
L.append(p("C16","Build options change only what they promise",
 "With the default features and without them, the same texts are accepted, with the same errors at the same positions. The trees are equal once nodes that cover nothing are removed from the tree built without default features; the default build contains no such nodes (apart from the root) and the other build contains exactly those the grammar derivation contains.",
 ["configurations","inputs"],"both settings of the node-removal feature, on all grammar-covering texts with trivia at every gap",
 "The tests run with default features only; nothing compares two builds.",
 ["cst.rs"],[("conditional compilation around empty nodes","cst.rs:Parser::parse_rec"),("conditional compilation around trivia placement","cst.rs:parse")]))
L.append(p("C17","The regular-expression scanner equals the automaton scanner",
 "A build that scans with regular expressions produces for every text exactly the outcome of a build that scans with the precomputed automaton: the same tree or the same error.",
 ["configurations","inputs"],"both scanner engines on all texts over one representative of every character class the patterns distinguish, in every scanner state, up to a bounded length",
 "The test suite runs under both engines but compares neither with the other, and only on its few statements.",
 ["lexer/util.rs","lexer/generated.rs"],[("longest match over precomputed automata","lexer/util.rs:find_match_len"),("longest match over compiled patterns","lexer/util.rs:find_match_len"),("patterns and automata generated from one flex file","lexer/generated.rs")],[("state","current scanner state","lexer.rs:Lexer")]))
L.append(p("C18","The outcome depends on the text alone, not on history or threads",
 "Parsing the same text always gives the same outcome, whatever was parsed before in the same process or thread, however often, with earlier trees kept or dropped, and whatever other threads parse at the same time. A returned tree never changes afterwards and can be read from other threads, also after the thread that made it has ended.",
 ["histories","schedules"],"all sequences of up to three calls over a pool of texts that exercise every scanner state and error exit; all schedules of two concurrent calls (and of two readers of one tree) with up to two switches between threads",
 "Every test parses one text once on one thread.",
 ["cst.rs","lexer.rs","lexer/util.rs"],[("every call builds its own scanner and parser","lexer.rs:lex"),("node cache is local to a tree","cst.rs:Parser::parse")]))
L.append(p("C23","A script is the sequence of its statements",
 "A text made by joining statements with semicolons is accepted exactly when each of the statements is accepted on its own (empty statements included). Its tree then holds exactly the trees of the individual statements, unchanged and in order, separated by the semicolon tokens.",
 ["inputs"],"all pairs and triples of a pool with one statement of every kind, empty and invalid statements, and long scripts of every one of them",
 "Tests parse single statements, and one script of two.",
 ["cst.rs","parser.rs"],[("statement list rules","parser.rs"),("left-recursive lists","cst.rs:parse")]))
L.append(p("C24","The web binding and the command line tool report what the library says",
 "The command line tool prints, for every text on its standard input, the complete tree to standard output if the library accepts the text, and otherwise the library's error to standard error with nothing on standard output. The web binding returns the tree's listing for accepted texts and a string starting with 'Error: ' that carries the error otherwise; both list every node and token with its kind, byte range and text, and neither ever panics.",
 ["inputs"],"all grammar-covering texts, all short combinations of fragments including malformed ones, and token texts of all lengths around the listing's abbreviation limit with multi-byte characters",
 "Neither front end has a test that runs it.",
 ["crates/postgresql-cst-parser-wasm/src/lib.rs","bin/parse.rs","lib.rs"],[("conversion of the outcome to a string","crates/postgresql-cst-parser-wasm/src/lib.rs"),("command line tool","bin/parse.rs")],None,["postgresql-cst-parser-wasm::parse_sql","the parse binary"]))
G="crates/parser-generator/src/parser_generator/"
L.append(p("C19","The parse tables are the LALR(1) automaton that bison builds",
 "For every grammar, the parser generator builds the LALR(1) automaton that bison builds: the same states up to numbering, with the same shift, reduce, accept and error entries. Shift/reduce conflicts are settled by the declared precedence and associativity (%left, %right, %nonassoc, %prec; the last terminal of a rule otherwise), in favour of shifting where nothing is declared, and accepting is preferred to reducing; where two rules can be reduced on the same terminal, each of them is compared with the shift, and the first of those that are left is reduced. Looking an action or a goto up in the compressed tables gives exactly the entry of the uncompressed ones. The generator ends without a panic.",
 ["inputs"],"all grammars over a few nonterminals and terminals with a bounded number of rules of bounded length, including useless, empty, recursive and ambiguous ones, and all operator grammars with all declarations of precedence",
 "The generator has no test of its own; gram.y is one grammar, and a wrong closure, look-ahead, conflict resolution or compression can leave it untouched until the next PostgreSQL release changes it.",
 [G+"lalr.rs",G+"id_mapper.rs",G+"bison.rs","crates/parser-generator/src/parser_generator.rs"],[("item sets, look-aheads, conflict resolution",G+"lalr.rs:build_lalr1_parse_table"),("compression of actions and default reductions","crates/parser-generator/src/parser_generator.rs:compress_action_table"),("compression of gotos","crates/parser-generator/src/parser_generator.rs:compress_goto_table")],None,["generated tables"],"tables of a grammar given as text (cfg pgcst_verif)"))
L.append(p("C20","The scanner automata accept exactly what the patterns say, first rule first",
 "For every set of flex patterns over any scanner states, the automaton built for a scanner state reaches, after any text, an accepting state exactly when some pattern of that state matches the whole text, and it then names the first such pattern of the file. A transition is missing exactly when no pattern can match any continuation, and patterns of other scanner states have no influence. Concatenation, alternation, repetition (* + ? {n} {n,} {n,m}), classes, negated classes, ranges, escapes, quoted text, '.' and named definitions mean what flex says. Running the automaton over a text names the rule of the longest prefix some pattern matches; <<EOF>> matches only at the end of the text. The deterministic automaton built from any state graph accepts what the graph accepts, with the first rule, and knows the states it stands for; simulating the graph on a text says whether it accepts a prefix of it.",
 ["inputs"],"all patterns up to a bounded size over the operators, classes and escapes, alone, in pairs in one scanner state and in pairs over two scanner states, against all texts (both automata are explored completely); all graphs of three states over two letters and empty moves with up to four (five) transitions and every choice of accepting states",
 "The tests of the automata crate check a few patterns on a few texts; a wrong subset construction or a rule-priority slip shows only for particular combinations of patterns.",
 ["crates/automata/src/regexp.rs","crates/automata/src/nfa.rs","crates/automata/src/dfa.rs","crates/automata/src/lib.rs"],[("pattern parser","crates/automata/src/regexp.rs"),("subset construction","crates/automata/src/lib.rs:to_flex_pattern_dfa"),("state and acceptance of automata","crates/automata/src/dfa.rs")],None,["automata::to_flex_pattern_dfa"]))
L.append(p("C21","Regenerating the parser reproduces the committed one",
 "Running the lexer generator and the parser generator on the committed scan.l, kwlist.h and gram.y succeeds, and the result compiles next to the hand-written sources of the crate and is the committed parser: it gives every text the same outcome, with either scanner engine, because it has the same scanner automata (up to numbering of states), the same parse tables (up to numbering of states), the same keywords and the same actions.",
 ["inputs"],"the complete product of the committed and the regenerated scanner automata and parse tables, and all texts of a bounded space covering every grammar rule, keyword and scanner state",
 "No test runs the generators; committed output that no longer follows from its sources, or a generator that has drifted, is noticed only when someone regenerates for the next PostgreSQL release.",
 ["crates/lexer-generator/src/lexer_generator.rs","crates/lexer-generator/src/flex_file.rs","crates/parser-generator/src/parser_generator.rs","crates/parser-generator/templates/parser_template.rs","crates/lexer-generator/resources/scan.l","crates/parser-generator/resources/gram.y",G+"lexer.rs","parser.rs","lexer/generated.rs","syntax_kind.rs"],[("emission of scanner rules and automata","crates/lexer-generator/src/lexer_generator.rs:generate"),("emission of parse tables and syntax kinds","crates/parser-generator/src/parser_generator.rs:write_file")],None,["postgresql_cst_parser::parse of both builds"],"tables and automata of both builds (cfg pgcst_verif)"))
L.append(p("C22","Grammar and scanner files are read as written, whatever their layout",
 "Reading a bison grammar yields exactly its rules (in order, with every symbol and %prec) and its precedence levels (in order, with their associativity): comments, line breaks, blank lines and actions (which may hold braces, quotes and comments) between any two symbols, comments in precedence declarations, and declarations the generator does not use, change nothing. Reading a flex file yields exactly its start conditions, definitions and rules, with patterns, states (also of grouped rules) and actions. Reading a well-formed file never panics.",
 ["inputs"],"all pairs of layouts (blanks, line breaks, comments, actions) at all pairs of places of sample grammars, all short sequences of alternatives, of declarations and of scanner-file pieces, all pairs of symbols",
 "The readers have one small test; gram.y and scan.l are one layout each, and a misread symbol or action silently changes the language.",
 [G+"bison.rs","crates/lexer-generator/src/flex_file.rs"],[("scanner of grammar files",G+"bison.rs:scan"),("rules and %prec",G+"bison.rs:parse_grammar_rules"),("precedence declarations",G+"bison.rs:parse_assoc"),("rules of scanner files","crates/lexer-generator/src/flex_file.rs:parse_rules")],None,["parser_generator::bison::parse_bison","flex_file::parse_flex_file"],"rules and precedences read from a text (cfg pgcst_verif)"))
L.sort(key=lambda x:x["id"])
with open('/verif/properties.jsonl','w') as f:
    for x in L: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,s)
print(len(L))

//! The implementation under test, observed through its public API.
use postgresql_cst_parser as pg;
use pg::syntax_kind::SyntaxKind;
use refpg::driver::{Ev, Outcome, Ref};
use refpg::lexer::LexError;
use std::borrow::Cow;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Sut {
    by: std::collections::HashMap<String, u16>,
    /// raw kind of the implementation -> symbol of the reference (u16::MAX: no counterpart)
    pub kinds: Vec<u16>,
    pub kind_names: Vec<String>,
}

fn norm(name: &str) -> &str {
    match name {
        "'%'" => "Percent",
        "'('" => "LParen",
        "')'" => "RParen",
        "'*'" => "Star",
        "'+'" => "Plus",
        "','" => "Comma",
        "'-'" => "Minus",
        "'.'" => "Dot",
        "'/'" => "Slash",
        "':'" => "Colon",
        "';'" => "Semicolon",
        "'<'" => "Less",
        "'='" => "Equals",
        "'>'" => "Greater",
        "'['" => "LBracket",
        "']'" => "RBracket",
        "'^'" => "Caret",
        n => n,
    }
}

impl Sut {
    pub fn new(r: &Ref) -> Sut {
        let mut kind_names = vec![];
        for raw in 0..5000u32 {
            let k = catch_unwind(|| <SyntaxKind as cstree::Syntax>::from_raw(cstree::RawSyntaxKind(raw)));
            match k {
                Ok(k) => kind_names.push(format!("{k:?}")),
                Err(_) => break,
            }
        }
        let names = r.kind_names();
        let mut by: std::collections::HashMap<String, u16> = Default::default();
        for (i, n) in names.iter().enumerate() {
            by.insert(norm(n).to_string(), i as u16);
        }
        let mut sut = Sut { by, kinds: vec![], kind_names: vec![] };
        sut.kinds = sut.map_names(&kind_names);
        sut.kind_names = kind_names;
        sut
    }

    /// symbols of the reference for the kinds of a build of the parser
    pub fn map_names(&self, kind_names: &[String]) -> Vec<u16> {
        kind_names.iter().map(|n| self.by.get(n.as_str()).copied().unwrap_or(u16::MAX)).collect()
    }

    pub fn map_kind(&self, k: SyntaxKind) -> u16 {
        self.kinds[k as u32 as usize]
    }

    pub fn parse(&self, input: &str) -> Outcome {
        match catch_unwind(AssertUnwindSafe(|| refpg::watch::guard(input, || pg::parse(input)))) {
            Err(p) => Outcome::Panic(
                p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(),
            ),
            Ok(Ok(tree)) => match catch_unwind(AssertUnwindSafe(|| self.walk(input, &tree))) {
                Ok(o) => o,
                Err(_) => Outcome::Panic("walking the tree panicked".into()),
            },
            Ok(Err(e)) => error_outcome(e),
        }
    }

    pub fn walk(&self, input: &str, tree: &pg::ResolvedNode) -> Outcome {
        use cstree::traversal::WalkEvent;
        use pg::NodeOrToken;
        let mut evs = Vec::with_capacity(256);
        let mut pos = 0usize;
        // (asking a token for its text climbs to the root for the resolver)
        let resolver = &**tree.resolver();
        for e in tree.preorder_with_tokens() {
            match e {
                WalkEvent::Enter(NodeOrToken::Node(n)) => {
                    let r = n.text_range();
                    evs.push(Ev::Open(self.map_kind(n.kind()), r.start().into(), r.end().into()));
                }
                WalkEvent::Leave(NodeOrToken::Node(_)) => evs.push(Ev::Close),
                WalkEvent::Enter(NodeOrToken::Token(t)) => {
                    let r = t.text_range();
                    let (a, b): (usize, usize) = (r.start().into(), r.end().into());
                    let text = t.resolve_text(resolver);
                    if a != pos || input.get(a..b) != Some(text) {
                        return Outcome::Odd(format!(
                            "token text {:?} at {}..{} is not the input at {}",
                            text, a, b, pos
                        ));
                    }
                    pos = b;
                    evs.push(Ev::Tok(self.map_kind(t.kind()), a as u32, b as u32));
                }
                WalkEvent::Leave(NodeOrToken::Token(_)) => {}
            }
        }
        if pos != input.len() {
            return Outcome::Odd(format!("the tree covers {} of {} bytes", pos, input.len()));
        }
        Outcome::Tree(evs)
    }
}

pub fn error_outcome(e: pg::ParserError) -> Outcome {
    match e {
        pg::ParserError::ParseError { message, start_byte_pos, end_byte_pos } => {
            if !message.contains("unexpected end") && !message.contains(&start_byte_pos.to_string()) {
                return Outcome::Odd(format!("message {message:?} does not name position {start_byte_pos}"));
            }
            Outcome::Syntax(start_byte_pos, end_byte_pos)
        }
        pg::ParserError::ScanReport(r) => {
            Outcome::Lex(LexError::Report(Cow::Owned(r.message), Cow::Owned(r.detail), r.position_in_bytes))
        }
        pg::ParserError::ScanError { message } => Outcome::Lex(LexError::Msg(Cow::Owned(message))),
    }
}

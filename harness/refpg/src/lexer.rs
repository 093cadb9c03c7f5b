//! Reference scanner: a hand-written transcription of the lexical rules of PostgreSQL 17
//! (scan.l as patched by libpg_query: comments are tokens, no param_junk), working on bytes,
//! without DFA tables, regexes or generated code.

use std::borrow::Cow;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Char(u8), // single-character token ("self" or "other")
    Other,    // a character no rule of the grammar knows (multi-byte safe)
    Ident,
    Keyword(u16), // index into the keyword list
    CComment,
    SqlComment,
    Bconst,
    Xconst,
    Sconst,
    Usconst,
    Uident,
    Typecast,
    DotDot,
    ColonEquals,
    EqualsGreater,
    LessEquals,
    GreaterEquals,
    NotEquals,
    Op,
    Param,
    Fconst,
    Iconst,
    // produced by the look-ahead filter
    FormatLa,
    NotLa,
    NullsLa,
    WithLa,
    WithoutLa,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Tok {
    pub kind: Kind,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum LexError {
    /// message only
    Msg(Cow<'static, str>),
    /// message, detail, byte position
    Report(Cow<'static, str>, Cow<'static, str>, usize),
}

pub struct Keywords {
    pub names: Vec<String>,  // lower case spelling
    pub tokens: Vec<String>, // terminal name
    pub category: Vec<String>,
    pub bare: Vec<bool>,
    map: std::collections::HashMap<Vec<u8>, u16>,
}

impl Keywords {
    pub fn load() -> Self {
        let mut k = Keywords { names: vec![], tokens: vec![], category: vec![], bare: vec![], map: Default::default() };
        for l in include_str!("../../data/keywords.txt").lines() {
            let f: Vec<&str> = l.split(' ').collect();
            k.map.insert(f[0].as_bytes().to_vec(), k.names.len() as u16);
            k.names.push(f[0].to_string());
            k.tokens.push(f[1].to_string());
            k.category.push(f[2].to_string());
            k.bare.push(f[3] == "BARE_LABEL");
        }
        k
    }
    pub fn lookup(&self, word: &[u8]) -> Option<u16> {
        if word.len() > 32 {
            return None;
        }
        let mut buf = [0u8; 32];
        for (i, b) in word.iter().enumerate() {
            buf[i] = if b.is_ascii_uppercase() { b + 32 } else { *b };
        }
        self.map.get(&buf[..word.len()]).copied()
    }
    pub fn by_token(&self, tok: &str) -> u16 {
        self.tokens.iter().position(|t| t == tok).unwrap() as u16
    }
}

fn space(b: u8) -> bool {
    matches!(b, b' ' | b'\t' | b'\n' | b'\r' | 0x0b | 0x0c)
}
fn newline(b: u8) -> bool {
    b == b'\n' || b == b'\r'
}
pub fn is_space(b: u8) -> bool {
    space(b)
}
fn ident_start(b: u8) -> bool {
    b.is_ascii_alphabetic() || b == b'_' || b >= 0x80
}
fn ident_cont(b: u8) -> bool {
    ident_start(b) || b.is_ascii_digit() || b == b'$'
}
fn tag_cont(b: u8) -> bool {
    ident_start(b) || b.is_ascii_digit()
}
pub const OPCHARS: &[u8] = b"~!@#^&|`?+-*/%<>=";
pub const SELF: &[u8] = b",()[].;:+-*/%^<>=";
fn opchar(b: u8) -> bool {
    OPCHARS.contains(&b)
}

pub struct Lexer<'a> {
    s: &'a [u8],
    pub kw: &'a Keywords,
}

type R<T> = Result<T, LexError>;

impl<'a> Lexer<'a> {
    fn at(&self, i: usize) -> Option<u8> {
        self.s.get(i).copied()
    }
    fn is(&self, i: usize, f: impl Fn(u8) -> bool) -> bool {
        self.at(i).is_some_and(f)
    }

    /// end of `[0-9](_?[0-9])*` over digits accepted by `d`, or None
    fn digits(&self, i: usize, d: impl Fn(u8) -> bool) -> Option<usize> {
        if !self.is(i, &d) {
            return None;
        }
        let mut j = i + 1;
        loop {
            if self.is(j, &d) {
                j += 1;
            } else if self.at(j) == Some(b'_') && self.is(j + 1, &d) {
                j += 2;
            } else {
                return Some(j);
            }
        }
    }

    /// after the closing quote at `i` (exclusive): position after the opening quote of a
    /// continuation, if the string continues on a later line
    fn continuation(&self, i: usize) -> Option<usize> {
        let mut j = i;
        let mut nl = false;
        while let Some(b) = self.at(j) {
            if !space(b) {
                break;
            }
            nl |= newline(b);
            j += 1;
        }
        (nl && self.at(j) == Some(b'\'')).then_some(j + 1)
    }

    /// quoted string whose opening quote ends at `i`; `doubling`: '' is an embedded quote
    fn quoted(&self, i: usize, doubling: bool, err: &'static str) -> R<usize> {
        let mut j = i;
        loop {
            match self.at(j) {
                None => return Err(LexError::Msg(Cow::Borrowed(err))),
                Some(b'\'') => {
                    if doubling && self.at(j + 1) == Some(b'\'') {
                        j += 2;
                        continue;
                    }
                    match self.continuation(j + 1) {
                        Some(n) => j = n,
                        None => return Ok(j + 1),
                    }
                }
                Some(_) => j += 1,
            }
        }
    }

    /// `\uXXXX` / `\UXXXXXXXX` at i: Some(Ok((value, end))) or Some(Err(())) if malformed
    fn unicode_escape(&self, i: usize) -> Option<Result<(u32, usize), ()>> {
        let n = match self.at(i + 1) {
            Some(b'u') => 4,
            Some(b'U') => 8,
            _ => return None,
        };
        let mut v: u32 = 0;
        for k in 0..n {
            match self.at(i + 2 + k).and_then(|b| (b as char).to_digit(16)) {
                Some(d) => v = (v << 4) | d,
                None => return Some(Err(())),
            }
        }
        Some(Ok((v, i + 2 + n)))
    }

    fn extended(&self, i: usize) -> R<usize> {
        const PAIR: LexError = LexError::Msg(Cow::Borrowed("invalid Unicode surrogate pair"));
        let fail = |p: usize| {
            LexError::Report(
                Cow::Borrowed("invalid Unicode escape"),
                Cow::Borrowed("Unicode escapes must be \\uXXXX or \\UXXXXXXXX."),
                p,
            )
        };
        let mut j = i;
        loop {
            match self.at(j) {
                None => return Err(LexError::Msg(Cow::Borrowed("unterminated quoted string"))),
                Some(b'\'') => {
                    if self.at(j + 1) == Some(b'\'') {
                        j += 2;
                        continue;
                    }
                    match self.continuation(j + 1) {
                        Some(n) => j = n,
                        None => return Ok(j + 1),
                    }
                }
                Some(b'\\') => match self.unicode_escape(j) {
                    Some(Err(())) => return Err(fail(j)),
                    Some(Ok((v, e))) => {
                        j = e;
                        match v {
                            0xD800..=0xDBFF => {
                                // the second half must follow at once
                                if self.at(j) != Some(b'\\') {
                                    return Err(PAIR);
                                }
                                match self.unicode_escape(j) {
                                    None => return Err(PAIR),
                                    Some(Err(())) => return Err(fail(j)),
                                    Some(Ok((0xDC00..=0xDFFF, e2))) => j = e2,
                                    Some(Ok(_)) => return Err(PAIR),
                                }
                            }
                            0xDC00..=0xDFFF => return Err(PAIR),
                            0 => return Err(LexError::Msg(Cow::Borrowed("invalid Unicode escape value"))),
                            v if v > 0x10FFFF => return Err(LexError::Msg(Cow::Borrowed("invalid Unicode escape value"))),
                            _ => {}
                        }
                    }
                    None => match self.at(j + 1) {
                        None => j += 1,
                        // the other escapes only matter for the value of the string; a backslash
                        // always takes one following character with it
                        Some(_) => j += 2,
                    },
                },
                Some(_) => j += 1,
            }
        }
    }

    fn dquoted(&self, i: usize) -> R<usize> {
        let mut j = i;
        loop {
            match self.at(j) {
                None => return Err(LexError::Msg(Cow::Borrowed("unterminated quoted identifier"))),
                Some(b'"') if self.at(j + 1) == Some(b'"') => j += 2,
                Some(b'"') => {
                    if j == i {
                        return Err(LexError::Msg(Cow::Borrowed("zero-length delimited identifier")));
                    }
                    return Ok(j + 1);
                }
                Some(_) => j += 1,
            }
        }
    }

    /// `$tag$` at i: end
    fn dollar_delim(&self, i: usize) -> Option<usize> {
        let mut j = i + 1;
        if self.is(j, ident_start) {
            while self.is(j, tag_cont) {
                j += 1;
            }
        }
        (self.at(j) == Some(b'$')).then_some(j + 1)
    }

    fn comment(&self, i: usize) -> R<usize> {
        let mut depth = 0;
        let mut j = i + 2;
        loop {
            match (self.at(j), self.at(j + 1)) {
                (None, _) => return Err(LexError::Msg(Cow::Borrowed("unterminated /* comment"))),
                (Some(b'/'), Some(b'*')) => {
                    depth += 1;
                    j += 2;
                }
                (Some(b'*'), Some(b'/')) => {
                    j += 2;
                    if depth == 0 {
                        return Ok(j);
                    }
                    depth -= 1;
                }
                _ => j += 1,
            }
        }
    }

    fn number(&self, i: usize) -> R<(Kind, usize)> {
        const JUNK: LexError = LexError::Msg(Cow::Borrowed("trailing junk after numeric literal"));
        let dec = |p| self.digits(p, |b| b.is_ascii_digit());
        let plain = |p: usize| {
            let mut q = p;
            while self.is(q, |b| b.is_ascii_digit()) {
                q += 1;
            }
            q
        };
        let ident_end = |p: usize| -> Option<usize> {
            if !self.is(p, ident_start) {
                return None;
            }
            let mut q = p;
            while self.is(q, ident_cont) {
                q += 1;
            }
            Some(q)
        };
        // candidates in the order of the rules: (length, outcome); the longest wins, then the first
        #[derive(Clone)]
        enum O {
            Int(u32, usize),
            Float,
            Back2,
            Err(LexError),
        }
        let mut cand: Vec<(usize, O)> = Vec::with_capacity(14);
        let d = dec(i);
        if let Some(e) = d {
            cand.push((e, O::Int(10, e)));
            if self.at(i) == Some(b'0') {
                let (radix, msg): (u32, &'static str) = match self.at(i + 1) {
                    Some(b'x' | b'X') => (16, "invalid hexadecimal integer"),
                    Some(b'o' | b'O') => (8, "invalid octal integer"),
                    Some(b'b' | b'B') => (2, "invalid binary integer"),
                    _ => (0, ""),
                };
                if radix > 0 {
                    // (_?digit)+
                    let first = if self.at(i + 2) == Some(b'_') { i + 3 } else { i + 2 };
                    if let Some(e) = self.digits(first, |b| (b as char).is_digit(radix)) {
                        cand.push((e, O::Int(radix, e)));
                    }
                    cand.push((first, O::Err(LexError::Msg(Cow::Borrowed(msg)))));
                }
            }
        }
        // numeric: D '.' D? | '.' D
        let mut bases = vec![];
        let mut numeric_junk = None;
        if let Some(e) = d {
            bases.push(e);
            if self.at(e) == Some(b'.') {
                let e2 = dec(e + 1).unwrap_or(e + 1);
                bases.push(e2);
                cand.push((e2, O::Float));
                numeric_junk = ident_end(plain(e + 1));
                if self.at(e + 1) == Some(b'.') {
                    cand.push((e + 2, O::Back2));
                }
            }
        } else if let Some(e2) = dec(i + 1) {
            bases.push(e2);
            cand.push((e2, O::Float));
            numeric_junk = ident_end(plain(i + 1));
        }
        let mut real_junk = None;
        for &b in &bases {
            if !matches!(self.at(b), Some(b'e' | b'E')) {
                continue;
            }
            let sign = matches!(self.at(b + 1), Some(b'+' | b'-'));
            let x = if sign { b + 2 } else { b + 1 };
            if let Some(e) = dec(x) {
                cand.push((e, O::Float));
                real_junk = real_junk.max(ident_end(plain(x)));
            }
            if sign {
                cand.push((b + 2, O::Err(JUNK)));
            }
        }
        if d.is_some() {
            if let Some(e) = ident_end(plain(i)) {
                cand.push((e, O::Err(JUNK)));
            }
        }
        for e in [numeric_junk, real_junk].into_iter().flatten() {
            cand.push((e, O::Err(JUNK)));
        }
        let best = cand.iter().map(|c| c.0).max().unwrap();
        let o = cand.iter().find(|c| c.0 == best).unwrap().1.clone();
        let int = |from: usize, radix: u32, end: usize| {
            let mut v: u64 = 0;
            let mut big = false;
            for &b in &self.s[from..end] {
                if b == b'_' {
                    continue;
                }
                v = v * radix as u64 + (b as char).to_digit(radix).unwrap() as u64;
                if v > i32::MAX as u64 {
                    big = true;
                    break;
                }
            }
            if big {
                Kind::Fconst
            } else {
                Kind::Iconst
            }
        };
        match o {
            O::Int(10, e) => Ok((int(i, 10, e), e)),
            O::Int(r, e) => Ok((int(i + 2, r, e), e)),
            O::Float => Ok((Kind::Fconst, best)),
            O::Back2 => Ok((int(i, 10, best - 2), best - 2)),
            O::Err(e) => Err(e),
        }
    }

    fn operator(&self, i: usize) -> R<(Kind, usize)> {
        let mut n = 0;
        while self.is(i + n, opchar) {
            n += 1;
        }
        let t = &self.s[i..i + n];
        let mut len = n;
        for k in 1..n {
            if t[k..].starts_with(b"/*") || t[k..].starts_with(b"--") {
                len = k;
                break;
            }
        }
        if len > 1 && matches!(t[len - 1], b'+' | b'-') && !t[..len - 1].iter().any(|b| b"~!@#^&|`?%".contains(b)) {
            while len > 1 && matches!(t[len - 1], b'+' | b'-') {
                len -= 1;
            }
        }
        let t = &t[..len];
        let kind = if len == 1 && SELF.contains(&t[0]) {
            Kind::Char(t[0])
        } else {
            match t {
                b"=>" => Kind::EqualsGreater,
                b"<=" => Kind::LessEquals,
                b">=" => Kind::GreaterEquals,
                b"<>" | b"!=" => Kind::NotEquals,
                _ if len >= 64 => return Err(LexError::Msg(Cow::Borrowed("operator too long"))),
                _ => Kind::Op,
            }
        };
        Ok((kind, i + len))
    }

    fn token(&self, i: usize) -> R<(Kind, usize)> {
        let c = self.s[i];
        let n = self.at(i + 1);
        let q = |b: u8| n == Some(b);
        match c {
            b'-' if q(b'-') => {
                let mut j = i;
                while self.is(j, |b| !newline(b)) {
                    j += 1;
                }
                Ok((Kind::SqlComment, j))
            }
            b'/' if q(b'*') => Ok((Kind::CComment, self.comment(i)?)),
            b'b' | b'B' if q(b'\'') => {
                Ok((Kind::Bconst, self.quoted(i + 2, false, "unterminated bit string literal")?))
            }
            b'x' | b'X' if q(b'\'') => {
                Ok((Kind::Xconst, self.quoted(i + 2, false, "unterminated hexadecimal string literal")?))
            }
            b'n' | b'N' if q(b'\'') => Ok((Kind::Keyword(self.kw.lookup(b"nchar").unwrap()), i + 1)),
            b'e' | b'E' if q(b'\'') => Ok((Kind::Sconst, self.extended(i + 2)?)),
            b'u' | b'U' if q(b'&') && self.at(i + 2) == Some(b'\'') => {
                Ok((Kind::Usconst, self.quoted(i + 3, true, "unterminated quoted string")?))
            }
            b'u' | b'U' if q(b'&') && self.at(i + 2) == Some(b'"') => Ok((Kind::Uident, self.dquoted(i + 3)?)),
            b'u' | b'U' if q(b'&') => Ok((Kind::Ident, i + 1)),
            b'\'' => Ok((Kind::Sconst, self.quoted(i + 1, true, "unterminated quoted string")?)),
            b'"' => Ok((Kind::Ident, self.dquoted(i + 1)?)),
            b'$' => {
                if n.is_some_and(|b| b.is_ascii_digit()) {
                    let mut j = i + 1;
                    while self.is(j, |b| b.is_ascii_digit()) {
                        j += 1;
                    }
                    return Ok((Kind::Param, j));
                }
                if let Some(e) = self.dollar_delim(i) {
                    let delim = &self.s[i..e];
                    // first later occurrence of the delimiter
                    let mut j = e;
                    while j + delim.len() <= self.s.len() {
                        if &self.s[j..j + delim.len()] == delim {
                            return Ok((Kind::Sconst, j + delim.len()));
                        }
                        j += 1;
                    }
                    return Err(LexError::Msg(Cow::Borrowed("unterminated dollar-quoted string")));
                }
                Ok((Kind::Other, i + 1))
            }
            b':' if q(b':') => Ok((Kind::Typecast, i + 2)),
            b':' if q(b'=') => Ok((Kind::ColonEquals, i + 2)),
            b'.' if q(b'.') => Ok((Kind::DotDot, i + 2)),
            b'.' if n.is_some_and(|b| b.is_ascii_digit()) => self.number(i),
            b'0'..=b'9' => self.number(i),
            _ if opchar(c) => self.operator(i),
            _ if SELF.contains(&c) => Ok((Kind::Char(c), i + 1)),
            _ if ident_start(c) => {
                let mut j = i;
                while self.is(j, ident_cont) {
                    j += 1;
                }
                Ok(match self.kw.lookup(&self.s[i..j]) {
                    Some(k) => (Kind::Keyword(k), j),
                    None => (Kind::Ident, j),
                })
            }
            _ => Ok((Kind::Other, i + 1)),
        }
    }
}

/// The raw token stream, comments included.
pub fn lex(kw: &Keywords, input: &str) -> Result<Vec<Tok>, LexError> {
    let l = Lexer { s: input.as_bytes(), kw };
    if input.as_bytes().contains(&0) {
        return Err(LexError::Msg(Cow::Borrowed("invalid byte sequence for encoding \"UTF8\": 0x00")));
    }
    let mut out = vec![];
    let mut i = 0;
    while i < input.len() {
        if space(l.s[i]) {
            i += 1;
            continue;
        }
        let (kind, end) = l.token(i)?;
        out.push(Tok { kind, start: i, end });
        i = end;
    }
    Ok(out)
}

/// The look-ahead filter of PostgreSQL's parser.c (base_yylex), comments being transparent.
pub struct LaFilter {
    fmt: u16,
    json: u16,
    not: u16,
    not_next: Vec<u16>,
    nulls: u16,
    nulls_next: Vec<u16>,
    with: u16,
    with_next: Vec<u16>,
    without: u16,
    time: u16,
}
impl LaFilter {
    pub fn new(kw: &Keywords) -> Self {
        let k = |s: &str| kw.by_token(s);
        LaFilter {
            fmt: k("FORMAT"),
            json: k("JSON"),
            not: k("NOT"),
            not_next: ["BETWEEN", "IN_P", "LIKE", "ILIKE", "SIMILAR"].map(k).to_vec(),
            nulls: k("NULLS_P"),
            nulls_next: ["FIRST_P", "LAST_P"].map(k).to_vec(),
            with: k("WITH"),
            with_next: ["TIME", "ORDINALITY"].map(k).to_vec(),
            without: k("WITHOUT"),
            time: k("TIME"),
        }
    }
    pub fn apply(&self, toks: &mut [Tok]) {
        let mut next: Option<Kind> = None;
        for i in (0..toks.len()).rev() {
            let k = toks[i].kind;
            if matches!(k, Kind::CComment | Kind::SqlComment) {
                continue;
            }
            let nk = if let Some(Kind::Keyword(n)) = next { Some(n) } else { None };
            let is = |set: &[u16]| nk.is_some_and(|n| set.contains(&n));
            toks[i].kind = match k {
                Kind::Keyword(x) if x == self.fmt && is(&[self.json]) => Kind::FormatLa,
                Kind::Keyword(x) if x == self.not && is(&self.not_next) => Kind::NotLa,
                Kind::Keyword(x) if x == self.nulls && is(&self.nulls_next) => Kind::NullsLa,
                Kind::Keyword(x) if x == self.with && is(&self.with_next) => Kind::WithLa,
                Kind::Keyword(x) if x == self.without && is(&[self.time]) => Kind::WithoutLa,
                Kind::Usconst => Kind::Sconst,
                Kind::Uident => Kind::Ident,
                k => k,
            };
            next = Some(k);
        }
    }
}

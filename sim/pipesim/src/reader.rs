//! An independent reader for the s-expression notation: what nodes a text has and
//! exactly which bytes each covers. Used as the oracle for source locations.
#[derive(Clone, Debug, PartialEq)]
pub enum Kind { List, Sym(String), Int(bool, u64), Str(String), Char(char), Bool(bool), Float }
#[derive(Clone, Debug)]
pub struct Node { pub start: usize, pub end: usize, pub kind: Kind, pub kids: Vec<Node>, pub dotted: bool }

pub struct Reader<'a> { s: &'a [u8], t: &'a str, i: usize, last_end: usize }

fn idch(c: u8) -> bool { c.is_ascii_alphanumeric() || b"!$%&*+-./:<=>?^_|".contains(&c) }

impl<'a> Reader<'a> {
    pub fn new(t: &'a str) -> Self { Reader { s: t.as_bytes(), t, i: 0, last_end: 0 } }
    fn ws(&mut self) {
        while self.i < self.s.len() {
            match self.s[self.i] {
                b' ' | b'\t' | b'\r' | b'\n' => self.i += 1,
                b';' => while self.i < self.s.len() { self.i += 1; if self.s[self.i - 1] == b'\n' { break; } },
                _ => break,
            }
        }
    }
    /// whole file: the top-level nodes and the range they span
    pub fn file(mut self) -> Option<(Vec<Node>, usize, usize)> {
        self.ws();
        let st = if self.i < self.s.len() { self.i } else { 0 };
        let mut v = vec![];
        while self.i < self.s.len() { v.push(self.node()?); self.ws(); }
        let e = v.last().map_or(0, |n| n.end);
        Some((v, st, e))
    }
    fn peek(&self) -> u8 { if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn word(&self) -> &'a str {
        let mut j = self.i;
        while j < self.s.len() && idch(self.s[j]) { j += 1; }
        &self.t[self.i..j]
    }
    fn node(&mut self) -> Option<Node> {
        self.ws();
        let start = self.i;
        let mut n = self.primary()?;
        loop {
            self.ws();
            let w = self.word();
            if w == "?" || w == "!" {
                self.i += 1;
                let e = self.i;
                let name = if w == "?" { "try?" } else { "try!" };
                n = Node { start, end: e, kind: Kind::List, dotted: false, kids: vec![Node { start, end: e, kind: Kind::Sym(name.into()), kids: vec![], dotted: false }, n] };
            } else if self.peek() == b'{' {
                self.i += 1;
                let mut k = vec![n];
                loop { self.ws(); if self.peek() == b'}' { self.i += 1; break; } k.push(self.node()?); }
                let e = self.i;
                k.insert(0, Node { start, end: e, kind: Kind::Sym("annotate".into()), kids: vec![], dotted: false });
                n = Node { start, end: e, kind: Kind::List, kids: k, dotted: false };
            } else { break; }
        }
        self.last_end = n.end;
        Some(n)
    }
    fn quoted(&mut self, len: usize, name: &str) -> Option<Node> {
        let start = self.i;
        let q = Node { start, end: start + len, kind: Kind::Sym(name.into()), kids: vec![], dotted: false };
        self.i += len;
        let k = self.node()?;
        Some(Node { start, end: k.end, kind: Kind::List, kids: vec![q, k], dotted: false })
    }
    /// the items up to the closing bracket, whether they end in a dotted tail, and where the last token before the bracket ends
    fn body(&mut self, close: u8) -> Option<(Vec<Node>, bool, usize)> {
        let mut k: Vec<Node> = vec![];
        let mut e = 0;
        loop {
            self.ws();
            let c = self.peek();
            if c == close { self.i += 1; return Some((k, false, e)); }
            if c == b'@' {
                self.i += 1;
                self.ws();
                let st = self.i;
                // the rest list spans from its first token to the last token before the bracket
                let (kk, d, e) = self.body(close)?;
                let empty = kk.is_empty();
                k.push(Node { start: if empty { usize::MAX } else { st }, end: if empty { usize::MAX } else { e }, kind: Kind::List, kids: kk, dotted: d });
                return Some((k, false, e));
            }
            if self.word() == "." {
                self.i += 1;
                let l = self.node()?;
                self.ws();
                if self.peek() != close { return None; }
                self.i += 1;
                let e = l.end;
                if let Kind::List = l.kind { let d = l.dotted; k.extend(l.kids); return Some((k, d, e)); }
                k.push(l);
                return Some((k, true, e));
            }
            if self.i >= self.s.len() { return None; }
            k.push(self.node()?);
            e = k.last().unwrap().end;
        }
    }
    fn primary(&mut self) -> Option<Node> {
        let start = self.i;
        let c = self.peek();
        let mk = |end, kind| Node { start, end, kind, kids: vec![], dotted: false };
        match c {
            b'(' | b'[' => {
                self.i += 1;
                let (kids, dotted, _) = self.body(if c == b'(' { b')' } else { b']' })?;
                Some(Node { start, end: self.i, kind: Kind::List, kids, dotted })
            }
            b'"' => {
                let mut j = self.i + 1;
                let mut v = vec![];
                loop {
                    match *self.s.get(j)? {
                        b'"' => break,
                        b'\\' => {
                            j += 1;
                            v.push(match *self.s.get(j)? { b'n' => b'\n', b'r' => b'\r', b't' => b'\t', b'0' => 0, x => x });
                            j += 1;
                        }
                        x => { v.push(x); j += 1; }
                    }
                }
                self.i = j + 1;
                Some(mk(self.i, Kind::Str(String::from_utf8(v).ok()?)))
            }
            b'#' => {
                match *self.s.get(self.i + 1)? {
                    b't' => { self.i += 2; Some(mk(self.i, Kind::Bool(true))) }
                    b'f' => { self.i += 2; Some(mk(self.i, Kind::Bool(false))) }
                    b'\\' => {
                        let ch = self.t[self.i + 2..].chars().next()?;
                        if ch == '\\' {
                            let e = *self.s.get(self.i + 3)?;
                            self.i += 4;
                            Some(mk(self.i, Kind::Char(match e { b'n' => '\n', b'r' => '\r', b't' => '\t', b'0' => '\0', x => x as char })))
                        } else {
                            self.i += 2 + ch.len_utf8();
                            Some(mk(self.i, Kind::Char(ch)))
                        }
                    }
                    _ => None,
                }
            }
            b'\'' => self.quoted(1, "quote"),
            b'`' => self.quoted(1, "quasiquote"),
            b',' if self.s.get(self.i + 1) == Some(&b'@') => self.quoted(2, "unquote-splicing"),
            b',' => self.quoted(1, "unquote"),
            b'\\' => self.quoted(1, "capture"),
            b'~' => self.quoted(1, "load"),
            _ => {
                let w = self.word();
                if w.is_empty() { return None; }
                self.i += w.len();
                let digits = |x: &str| !x.is_empty() && x.bytes().all(|b| b.is_ascii_digit());
                let k = if digits(w) || (w.starts_with('+') && digits(&w[1..])) { Kind::Int(false, w.trim_start_matches('+').parse().ok()?) }
                    else if w.starts_with('-') && digits(&w[1..]) { Kind::Int(true, w.parse::<i64>().ok()? as u64) }
                    else if w.bytes().next().map_or(false, |b| b.is_ascii_digit()) && w.contains('.') { Kind::Float }
                    else { Kind::Sym(w.to_string()) };
                Some(mk(self.i, k))
            }
        }
    }
}

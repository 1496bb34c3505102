//! A reference lexer and parser of the DOT language, written from the grammar
//! (https://graphviz.org/doc/info/lang.html). It is three-valued: texts whose
//! status the supported subset leaves open are `Unspecified`.

use crate::prog::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept(RProg),
    Reject(&'static str),
    Unspecified(&'static str),
}

/// What a text says, as far as the AST keeps it.
#[derive(Clone, Debug, PartialEq)]
pub struct RProg {
    pub name: Option<String>,
    pub body: Vec<S>,
}

enum Lx {
    Reject(&'static str),
    Unspec(&'static str),
}

/// Nesting deeper than this is not judged.
pub const DEPTH: usize = 150;

fn lex(s: &[char]) -> Result<Vec<Tok>, Lx> {
    let mut i = 0;
    let mut out = Vec::new();
    let at = |i: usize| s.get(i).copied();
    // A lexical error may be followed by something that is left open; then
    // the whole text is left open.
    let mut bad: Option<&'static str> = None;
    while let Some(c) = at(i) {
        match c {
            ' ' | '\t' | '\n' | '\r' | '\x0c' => i += 1,
            '/' if at(i + 1) == Some('/') => {
                while let Some(c) = at(i) {
                    if c == '\0' {
                        return Err(Lx::Unspec("NUL"));
                    }
                    if c == '\n' {
                        break;
                    }
                    i += 1;
                }
            }
            '/' if at(i + 1) == Some('*') => {
                i += 2;
                loop {
                    match at(i) {
                        None => return Err(Lx::Unspec("open comment")),
                        Some('\0') => return Err(Lx::Unspec("NUL")),
                        Some('*') if at(i + 1) == Some('/') => {
                            i += 2;
                            break;
                        }
                        _ => i += 1,
                    }
                }
            }
            '{' | '}' | '[' | ']' | '=' | ';' | ':' | ',' => {
                out.push(Tok::P(match c {
                    '{' => "{",
                    '}' => "}",
                    '[' => "[",
                    ']' => "]",
                    '=' => "=",
                    ';' => ";",
                    ':' => ":",
                    _ => ",",
                }));
                i += 1;
            }
            '"' => {
                let mut r = String::new();
                i += 1;
                loop {
                    match at(i) {
                        None => {
                            return Err(Lx::Reject("open string"));
                        }
                        Some('\0') => return Err(Lx::Unspec("NUL")),
                        Some('"') => {
                            i += 1;
                            break;
                        }
                        Some('\\') => {
                            match at(i + 1) {
                                None => return Err(Lx::Reject("open string")),
                                Some('\0') => return Err(Lx::Unspec("NUL")),
                                Some('\n') | Some('\r') => {
                                    return Err(Lx::Unspec("continued line"))
                                }
                                Some('n') | Some('l') => r.push('\n'),
                                Some(c) => r.push(c),
                            }
                            i += 2;
                        }
                        Some(c) => {
                            r.push(c);
                            i += 1;
                        }
                    }
                }
                out.push(Tok::Id(r));
            }
            '-' if at(i + 1) == Some('>') => {
                out.push(Tok::P("->"));
                i += 2;
            }
            '-' if at(i + 1) == Some('-') => {
                out.push(Tok::P("--"));
                i += 2;
            }
            '-' if at(i + 1) == Some('.') => return Err(Lx::Unspec("number")),
            '0'..='9' | '-' => {
                let b = i;
                i += 1;
                if c == '-' && !at(i).is_some_and(|c| c.is_ascii_digit()) {
                    if at(i).is_none_or(|c| c.is_ascii()) {
                        bad = bad.or(Some("lone dash"));
                        continue;
                    }
                    return Err(Lx::Unspec("script"));
                }
                let digits = |i: &mut usize| {
                    while at(*i).is_some_and(|c| c.is_ascii_digit()) {
                        *i += 1;
                    }
                };
                digits(&mut i);
                if at(i) == Some('.') {
                    i += 1;
                    digits(&mut i);
                }
                match at(i) {
                    Some(c)
                        if c == '.'
                            || c == '_'
                            || c.is_ascii_alphabetic()
                            || !c.is_ascii() =>
                    {
                        return Err(Lx::Unspec("number"))
                    }
                    _ => {}
                }
                out.push(Tok::Id(s[b..i].iter().collect()));
            }
            c if c.is_ascii_alphabetic() => {
                let b = i;
                while at(i).is_some_and(|c| c.is_ascii_alphanumeric() || c == '_')
                {
                    i += 1;
                }
                if at(i).is_some_and(|c| !c.is_ascii()) {
                    return Err(Lx::Unspec("script"));
                }
                let w: String = s[b..i].iter().collect();
                let kw = match &w[..] {
                    "graph" => Some("graph"),
                    "digraph" => Some("digraph"),
                    "node" => Some("node"),
                    "edge" => Some("edge"),
                    "strict" => Some("strict"),
                    "subgraph" => Some("subgraph"),
                    _ => None,
                };
                match kw {
                    Some(k) => out.push(Tok::Kw(k)),
                    None if is_keyword_ci(&w) => {
                        return Err(Lx::Unspec("keyword case"))
                    }
                    None => out.push(Tok::Id(w)),
                }
            }
            '_' | '.' | '#' | '+' | '<' | '\0' | '\x0b' => {
                return Err(Lx::Unspec("character"))
            }
            c if !c.is_ascii() => return Err(Lx::Unspec("script")),
            _ => {
                bad = bad.or(Some("character"));
                i += 1;
            }
        }
    }
    match bad {
        Some(b) => Err(Lx::Reject(b)),
        None => Ok(out),
    }
}

type P<T> = Result<T, Lx>;

struct Parser {
    t: Vec<Tok>,
    i: usize,
    depth: usize,
}

impl Parser {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), Some(Tok::P(x)) if *x == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        if self.is(p) {
            self.i += 1;
            return true;
        }
        false
    }
    fn kw(&mut self, k: &str) -> bool {
        if matches!(self.peek(), Some(Tok::Kw(x)) if *x == k) {
            self.i += 1;
            return true;
        }
        false
    }
    fn want(&mut self, p: &str, why: &'static str) -> P<()> {
        if self.eat(p) {
            Ok(())
        } else {
            Err(Lx::Reject(why))
        }
    }
    fn id(&mut self) -> Option<String> {
        if let Some(Tok::Id(s)) = self.peek() {
            let s = s.clone();
            self.i += 1;
            return Some(s);
        }
        None
    }
    fn need_id(&mut self, why: &'static str) -> P<String> {
        self.id().ok_or(Lx::Reject(why))
    }

    fn graph(&mut self) -> P<RProg> {
        self.kw("strict");
        if !self.kw("graph") && !self.kw("digraph") {
            if matches!(self.peek(), Some(Tok::Kw("subgraph"))) {
                return Err(Lx::Unspec("top level subgraph"));
            }
            return Err(Lx::Reject("graph keyword"));
        }
        let name = self.id();
        self.want("{", "graph body")?;
        let body = self.stmts()?;
        if self.i != self.t.len() {
            return Err(Lx::Reject("trailing content"));
        }
        Ok(RProg { name, body })
    }

    /// After '{', up to and including '}'.
    fn stmts(&mut self) -> P<Vec<S>> {
        self.depth += 1;
        if self.depth > DEPTH {
            return Err(Lx::Unspec("depth"));
        }
        let mut v = Vec::new();
        loop {
            if self.eat("}") {
                self.depth -= 1;
                return Ok(v);
            }
            if self.is(";") {
                return Err(Lx::Unspec("empty statement"));
            }
            v.push(self.stmt()?);
            self.eat(";");
        }
    }

    fn attrs(&mut self) -> P<Attrs> {
        let mut a = Vec::new();
        while self.eat("[") {
            while !self.eat("]") {
                let k = self.need_id("attribute name")?;
                self.want("=", "attribute =")?;
                let v = self.need_id("attribute value")?;
                a.push((k, v));
                if (self.eat(";") || self.eat(","))
                    && (self.is(";") || self.is(","))
                {
                    return Err(Lx::Unspec("separators"));
                }
            }
        }
        Ok(a)
    }

    fn nref(&mut self) -> P<NRef> {
        if self.is("{") || matches!(self.peek(), Some(Tok::Kw("subgraph"))) {
            return Err(Lx::Unspec("subgraph in edge"));
        }
        let n = self.need_id("node name")?;
        let mut p = None;
        if self.eat(":") {
            p = Some(self.need_id("port name")?);
            if self.is(":") {
                return Err(Lx::Unspec("compass"));
            }
        }
        Ok((n, p))
    }

    fn sub(&mut self, kw: bool, name: Option<String>) -> P<S> {
        self.want("{", "subgraph body")?;
        let body = self.stmts()?;
        if self.is("->") || self.is("--") {
            return Err(Lx::Unspec("subgraph in edge"));
        }
        Ok(S::Sub { kw, name, body })
    }

    fn stmt(&mut self) -> P<S> {
        match self.peek() {
            None => Err(Lx::Reject("end of file")),
            Some(Tok::Kw("subgraph")) => {
                self.i += 1;
                let name = self.id();
                self.sub(true, name)
            }
            Some(Tok::P("{")) => self.sub(false, None),
            Some(Tok::Kw(k)) => {
                let t = match *k {
                    "graph" => Target::Graph,
                    "node" => Target::Node,
                    "edge" => Target::Edge,
                    _ => return Err(Lx::Reject("keyword")),
                };
                self.i += 1;
                if !self.is("[") {
                    return Err(Lx::Reject("attribute list"));
                }
                Ok(S::Attr(t, self.attrs()?))
            }
            Some(Tok::P(_)) => Err(Lx::Reject("statement")),
            Some(Tok::Id(_)) => {
                let n = self.nref()?;
                if self.is("=") {
                    if n.1.is_some() {
                        return Err(Lx::Reject("assignment to a port"));
                    }
                    self.i += 1;
                    let v = self.need_id("assigned value")?;
                    return Ok(S::Assign(n.0, v));
                }
                let mut to = Vec::new();
                while self.is("->") || self.is("--") {
                    let arrow = self.is("->");
                    self.i += 1;
                    to.push((self.nref()?, arrow));
                }
                let a = self.attrs()?;
                if to.is_empty() {
                    Ok(S::Node(n, a))
                } else {
                    Ok(S::Edge(n, to, a))
                }
            }
        }
    }
}

pub fn judge(text: &str) -> Verdict {
    let s: Vec<char> = text.chars().collect();
    let t = match lex(&s) {
        Ok(t) => t,
        Err(Lx::Reject(w)) => return Verdict::Reject(w),
        Err(Lx::Unspec(w)) => return Verdict::Unspecified(w),
    };
    let mut p = Parser { t, i: 0, depth: 0 };
    match p.graph() {
        Ok(g) => Verdict::Accept(g),
        Err(Lx::Reject(w)) => Verdict::Reject(w),
        Err(Lx::Unspec(w)) => Verdict::Unspecified(w),
    }
}

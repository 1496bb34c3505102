//! A strict, minimal XML 1.0 reader (no DTDs): the independent judge of
//! whether the SVG backend's output is a well-formed document.

#[derive(Clone, Debug)]
pub enum Node {
    Elem(Elem),
    Text(String),
}

#[derive(Clone, Debug)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<Node>,
}

impl Elem {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|a| a.0 == k).map(|a| &a.1[..])
    }
    pub fn elems(&self) -> impl Iterator<Item = &Elem> {
        self.kids.iter().filter_map(|k| match k {
            Node::Elem(e) => Some(e),
            _ => None,
        })
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for k in &self.kids {
            match k {
                Node::Text(t) => s.push_str(t),
                Node::Elem(e) => s.push_str(&e.text()),
            }
        }
        s
    }
    /// The element and everything below it, in document order.
    pub fn walk<'a>(&'a self, out: &mut Vec<&'a Elem>) {
        out.push(self);
        for e in self.elems() {
            e.walk(out);
        }
    }
}

pub fn legal_char(c: char) -> bool {
    matches!(c as u32,
        0x9 | 0xA | 0xD | 0x20..=0xD7FF | 0xE000..=0xFFFD | 0x10000..=0x10FFFF)
}

fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_numeric() || c == '-' || c == '.'
}

struct P<'a> {
    s: &'a [char],
    i: usize,
}

type E<T> = Result<T, String>;

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> E<T> {
        let a = self.i.saturating_sub(40);
        let b = (self.i + 40).min(self.s.len());
        let near: String = self.s[a..b].iter().collect();
        Err(format!("{} at char {} near {:?}", m, self.i, near))
    }
    fn peek(&self) -> Option<char> {
        self.s.get(self.i).copied()
    }
    fn looking(&self, t: &str) -> bool {
        let mut j = self.i;
        for c in t.chars() {
            if self.s.get(j) != Some(&c) {
                return false;
            }
            j += 1;
        }
        true
    }
    fn eat(&mut self, t: &str) -> E<()> {
        if self.looking(t) {
            self.i += t.chars().count();
            Ok(())
        } else {
            self.err(&format!("expected {:?}", t))
        }
    }
    fn ws(&mut self) -> bool {
        let s = self.i;
        while matches!(self.peek(), Some(' ' | '\t' | '\r' | '\n')) {
            self.i += 1;
        }
        self.i > s
    }
    fn name(&mut self) -> E<String> {
        let mut r = String::new();
        match self.peek() {
            Some(c) if name_start(c) => {}
            _ => return self.err("expected a name"),
        }
        while let Some(c) = self.peek() {
            if !name_char(c) {
                break;
            }
            r.push(c);
            self.i += 1;
        }
        Ok(r)
    }
    fn reference(&mut self) -> E<char> {
        self.eat("&")?;
        let mut r = String::new();
        loop {
            match self.peek() {
                Some(';') => {
                    self.i += 1;
                    break;
                }
                Some(c) if c == '#' || c.is_ascii_alphanumeric() => {
                    r.push(c);
                    self.i += 1;
                }
                _ => return self.err("malformed reference"),
            }
        }
        match &r[..] {
            "amp" => return Ok('&'),
            "lt" => return Ok('<'),
            "gt" => return Ok('>'),
            "quot" => return Ok('"'),
            "apos" => return Ok('\''),
            _ => {}
        }
        let code = if let Some(h) = r.strip_prefix("#x") {
            u32::from_str_radix(h, 16).ok()
        } else if let Some(d) = r.strip_prefix('#') {
            d.parse::<u32>().ok()
        } else {
            None
        };
        match code.and_then(char::from_u32) {
            Some(c) if legal_char(c) => Ok(c),
            _ => self.err(&format!("undefined reference &{};", r)),
        }
    }
    fn attrs(&mut self) -> E<Vec<(String, String)>> {
        let mut v: Vec<(String, String)> = Vec::new();
        loop {
            let sp = self.ws();
            match self.peek() {
                Some(c) if name_start(c) => {}
                _ => return Ok(v),
            }
            if !sp {
                return self.err("expected white space before an attribute");
            }
            let k = self.name()?;
            self.ws();
            self.eat("=")?;
            self.ws();
            let q = match self.peek() {
                Some(c @ ('"' | '\'')) => c,
                _ => return self.err("expected a quoted value"),
            };
            self.i += 1;
            let mut val = String::new();
            loop {
                match self.peek() {
                    None => return self.err("unterminated attribute value"),
                    Some('<') => return self.err("'<' in an attribute value"),
                    Some('&') => val.push(self.reference()?),
                    Some(c) => {
                        self.i += 1;
                        if c == q {
                            break;
                        }
                        val.push(c);
                    }
                }
            }
            if v.iter().any(|a| a.0 == k) {
                return self.err(&format!("duplicate attribute {}", k));
            }
            v.push((k, val));
        }
    }
    /// Comments, processing instructions and white space.
    fn misc(&mut self) -> E<()> {
        loop {
            if self.ws() {
                continue;
            }
            if self.looking("<!--") {
                self.comment()?;
                continue;
            }
            if self.looking("<?") {
                self.pi()?;
                continue;
            }
            return Ok(());
        }
    }
    fn comment(&mut self) -> E<()> {
        self.eat("<!--")?;
        while !self.looking("--") {
            if self.peek().is_none() {
                return self.err("unterminated comment");
            }
            self.i += 1;
        }
        self.eat("-->")
    }
    fn pi(&mut self) -> E<()> {
        self.eat("<?")?;
        let n = self.name()?;
        if n.eq_ignore_ascii_case("xml") {
            return self.err("misplaced XML declaration");
        }
        while !self.looking("?>") {
            if self.peek().is_none() {
                return self.err("unterminated processing instruction");
            }
            self.i += 1;
        }
        self.eat("?>")
    }
    /// An element; iterative, so that depth costs no stack.
    fn element(&mut self) -> E<Elem> {
        let mut stack: Vec<Elem> = Vec::new();
        loop {
            // At a start tag.
            self.eat("<")?;
            let name = self.name()?;
            let attrs = self.attrs()?;
            self.ws();
            let mut e = Elem {
                name,
                attrs,
                kids: Vec::new(),
            };
            if self.looking("/>") {
                self.eat("/>")?;
                match stack.last_mut() {
                    None => return Ok(e),
                    Some(p) => p.kids.push(Node::Elem(e)),
                }
            } else {
                self.eat(">")?;
                stack.push(e);
            }
            // Content, up to the next start tag.
            loop {
                let mut t = String::new();
                loop {
                    match self.peek() {
                        None => return self.err("unterminated element"),
                        Some('<') => break,
                        Some('&') => t.push(self.reference()?),
                        Some(c) => {
                            if self.looking("]]>") {
                                return self.err("']]>' in text");
                            }
                            t.push(c);
                            self.i += 1;
                        }
                    }
                }
                if !t.is_empty() {
                    stack.last_mut().unwrap().kids.push(Node::Text(t));
                }
                if self.looking("<!--") {
                    self.comment()?;
                } else if self.looking("<![CDATA[") {
                    self.eat("<![CDATA[")?;
                    let mut t = String::new();
                    while !self.looking("]]>") {
                        match self.peek() {
                            None => return self.err("unterminated CDATA"),
                            Some(c) => t.push(c),
                        }
                        self.i += 1;
                    }
                    self.eat("]]>")?;
                    stack.last_mut().unwrap().kids.push(Node::Text(t));
                } else if self.looking("<?") {
                    self.pi()?;
                } else if self.looking("</") {
                    self.eat("</")?;
                    let n = self.name()?;
                    self.ws();
                    self.eat(">")?;
                    e = stack.pop().unwrap();
                    if e.name != n {
                        return self.err(&format!(
                            "end tag {} closes {}",
                            n, e.name
                        ));
                    }
                    match stack.last_mut() {
                        None => return Ok(e),
                        Some(p) => p.kids.push(Node::Elem(e)),
                    }
                } else {
                    break; // A start tag.
                }
            }
        }
    }
}

/// Parse a document: an optional declaration, then exactly one element.
pub fn parse(s: &str) -> Result<Elem, String> {
    let v: Vec<char> = s.chars().collect();
    for (i, c) in v.iter().enumerate() {
        if !legal_char(*c) {
            return Err(format!(
                "illegal XML character U+{:04X} at char {}",
                *c as u32, i
            ));
        }
    }
    let mut p = P { s: &v, i: 0 };
    if p.looking("<?xml") {
        p.eat("<?xml")?;
        let a = p.attrs()?;
        p.ws();
        p.eat("?>")?;
        if a.first().map(|x| &x.0[..]) != Some("version") {
            return Err("the XML declaration lacks a version".into());
        }
        if let Some(enc) = a.iter().find(|x| x.0 == "encoding") {
            if !enc.1.eq_ignore_ascii_case("utf-8") {
                return Err(format!("declared encoding {}", enc.1));
            }
        }
    }
    p.misc()?;
    let e = p.element()?;
    p.misc()?;
    if p.i != v.len() {
        return p.err("content after the document element");
    }
    Ok(e)
}

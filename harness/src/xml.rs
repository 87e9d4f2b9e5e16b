//! A small strict XML parser (elements, attributes, character data, the five predefined entities
//! and numeric references); anything else is an error.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum N {
    E(El),
    T(String),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct El {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub kids: Vec<N>,
}
impl El {
    pub fn attr(&self, k: &str) -> Option<&str> {
        self.attrs.iter().find(|(a, _)| a == k).map(|(_, v)| v.as_str())
    }
    pub fn els(&self) -> impl Iterator<Item = &El> {
        self.kids.iter().filter_map(|k| if let N::E(e) = k { Some(e) } else { None })
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        self.text_into(&mut s);
        s
    }
    fn text_into(&self, s: &mut String) {
        for k in &self.kids {
            match k {
                N::T(t) => s.push_str(t),
                N::E(e) => e.text_into(s),
            }
        }
    }
    /// Whitespace-only text is dropped from elements that may not contain text.
    pub fn normalize(&mut self) {
        if !is_token(&self.name) {
            self.kids.retain(|k| !matches!(k, N::T(t) if t.chars().all(|c| c == ' ' || c == '\n' || c == '\t')));
        }
        for k in &mut self.kids {
            if let N::E(e) = k {
                e.normalize();
            }
        }
    }
    /// Is there an element of this name containing the text?
    pub fn walk_find(&self, name: &str, text: &str) -> bool {
        let mut hit = false;
        self.walk(&mut |e| hit |= e.name == name && e.text().contains(text));
        hit
    }
    pub fn walk<'a>(&'a self, f: &mut impl FnMut(&'a El)) {
        f(self);
        for e in self.els() {
            e.walk(f);
        }
    }
    pub fn ser(&self) -> String {
        let mut s = String::new();
        self.ser_into(&mut s);
        s
    }
    fn ser_into(&self, s: &mut String) {
        s.push('<');
        s.push_str(&self.name);
        for (k, v) in &self.attrs {
            s.push(' ');
            s.push_str(k);
            s.push_str("=\"");
            s.push_str(v);
            s.push('"');
        }
        s.push('>');
        for k in &self.kids {
            match k {
                N::T(t) => s.push_str(t),
                N::E(e) => e.ser_into(s),
            }
        }
        s.push_str("</");
        s.push_str(&self.name);
        s.push('>');
    }
}
pub fn is_token(n: &str) -> bool {
    matches!(n, "mi" | "mo" | "mn" | "mtext" | "ms" | "a" | "annotation" | "b" | "i" | "em" | "span" | "small" | "code" | "tt")
}

struct P<'a> {
    s: &'a [u8],
    src: &'a str,
    i: usize,
    /// HTML rules: < is allowed in attribute values.
    html: bool,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> {
        let mut a = self.i.saturating_sub(20).min(self.src.len());
        while !self.src.is_char_boundary(a) {
            a -= 1;
        }
        let mut b = (self.i + 20).min(self.src.len());
        while !self.src.is_char_boundary(b) {
            b += 1;
        }
        Err(format!("not well-formed: {m} at byte {} near `{}`", self.i, &self.src[a..b]))
    }
    fn name(&mut self) -> R<String> {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"-_:.".contains(&self.s[self.i])) {
            self.i += 1;
        }
        if st == self.i || !self.s[st].is_ascii_alphabetic() {
            return self.err("name expected");
        }
        Ok(self.src[st..self.i].to_string())
    }
    fn entity(&mut self) -> R<char> {
        // at '&'
        let rest = &self.s[self.i + 1..self.s.len().min(self.i + 12)];
        let Some(p) = rest.iter().position(|b| *b == b';') else {
            return self.err("raw &");
        };
        let name = match std::str::from_utf8(&rest[..p]) {
            Ok(n) => n,
            Err(_) => return self.err("raw &"),
        };
        let c = match name {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let n = if let Some(h) = name.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else if let Some(d) = name.strip_prefix('#') { d.parse().ok() } else { None };
                match n.and_then(char::from_u32) {
                    Some(c) => c,
                    None => return self.err("unknown entity or raw &"),
                }
            }
        };
        self.i += 1 + p + 1;
        Ok(c)
    }
    fn element(&mut self, depth: usize) -> R<El> {
        // at '<'
        self.i += 1;
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = Vec::new();
        loop {
            let mut ws = false;
            while self.i < self.s.len() && self.s[self.i] == b' ' {
                self.i += 1;
                ws = true;
            }
            match self.s.get(self.i) {
                Some(b'>') => {
                    self.i += 1;
                    break;
                }
                Some(b'/') if self.s.get(self.i + 1) == Some(&b'>') => {
                    self.i += 2;
                    return Ok(El { name, attrs, kids: vec![] });
                }
                Some(_) if ws => {}
                _ => return self.err("bad start tag"),
            }
            let k = self.name()?;
            if self.s.get(self.i) != Some(&b'=') || self.s.get(self.i + 1) != Some(&b'"') {
                return self.err("attribute value expected");
            }
            self.i += 2;
            let mut v = String::new();
            loop {
                match self.s.get(self.i) {
                    None => return self.err("unterminated attribute"),
                    Some(b'"') => {
                        self.i += 1;
                        break;
                    }
                    Some(b'<') if !self.html => return self.err("< in attribute"),
                    Some(b'&') => v.push(self.entity()?),
                    Some(_) => {
                        let c = self.src[self.i..].chars().next().unwrap();
                        v.push(c);
                        self.i += c.len_utf8();
                    }
                }
            }
            if attrs.iter().any(|(a, _)| *a == k) {
                return self.err("duplicate attribute");
            }
            attrs.push((k, v));
        }
        let mut kids = Vec::new();
        let mut text = String::new();
        loop {
            match self.s.get(self.i) {
                None => return self.err(&format!("<{name}> not closed")),
                Some(b'<') => {
                    if !text.is_empty() {
                        kids.push(N::T(std::mem::take(&mut text)));
                    }
                    if self.s.get(self.i + 1) == Some(&b'/') {
                        self.i += 2;
                        let n = self.name()?;
                        if n != name {
                            return self.err(&format!("</{n}> closes <{name}>"));
                        }
                        if self.s.get(self.i) != Some(&b'>') {
                            return self.err("bad end tag");
                        }
                        self.i += 1;
                        return Ok(El { name, attrs, kids });
                    }
                    kids.push(N::E(self.element(depth + 1)?));
                }
                Some(b'>') => return self.err("raw >"),
                Some(b'&') => text.push(self.entity()?),
                Some(_) => {
                    let c = self.src[self.i..].chars().next().unwrap();
                    text.push(c);
                    self.i += c.len_utf8();
                }
            }
        }
    }
}
/// Parse one element that spans the whole string.
pub fn parse(s: &str) -> R<El> {
    parse_as(s, false)
}
pub fn parse_html(s: &str) -> R<El> {
    parse_as(s, true)
}
fn parse_as(s: &str, html: bool) -> R<El> {
    let mut p = P { s: s.as_bytes(), src: s, i: 0, html };
    if p.s.first() != Some(&b'<') {
        return p.err("element expected");
    }
    let e = p.element(0)?;
    if p.i != s.len() {
        return p.err("trailing content");
    }
    Ok(e)
}
pub fn parse_norm(s: &str) -> R<El> {
    let mut e = parse(s)?;
    e.normalize();
    Ok(e)
}

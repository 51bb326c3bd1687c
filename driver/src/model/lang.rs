//! Lexer and parser.
use super::*;
use crate::util::norm_path;
use std::rc::Rc;

#[derive(Debug)]
pub struct Src {
    pub path: String,
    pub text: String,
}

#[derive(Clone, Debug)]
pub struct Site {
    pub src: Rc<Src>,
    pub off: usize,
}

#[derive(Clone, Debug)]
pub struct Atom {
    pub v: String,
    pub site: Site,
    pub ws: String,
}

#[derive(Clone, Debug)]
pub enum N {
    Sym(Atom),
    Num(Atom),
    Str(Atom),
    Raw(Atom),
    List { nodes: Vec<N>, site: Site, end: Site, end_ws: String, ws: String },
    Attr { kw: String, node: Box<N>, site: Site, ws: String },
}

impl Site {
    pub fn loc(&self) -> R<Loc> {
        let t = &self.src.text;
        let start = t[..self.off].rfind('\n').map_or(0, |i| i + 1);
        let line = 1 + t[..start].matches('\n').count();
        let Some(col) = width(&t[start..self.off]) else { return skip("width") };
        Ok((norm_path(&self.src.path), line as u32, col as u32 + 1))
    }
    pub fn fail<T>(&self, what: &str) -> R<T> { Err(Stop::Fail(self.loc()?, what.into())) }
}

/// Columns a piece of text takes in a terminal.
pub fn width(s: &str) -> Option<usize> {
    if s.contains('\r') { return None; }
    Some(unicode_width::UnicodeWidthStr::width(s))
}

impl N {
    pub fn atom(&self) -> Option<&Atom> {
        match self { N::Sym(a) | N::Num(a) | N::Str(a) | N::Raw(a) => Some(a), _ => None }
    }
    pub fn sym(&self) -> Option<&Atom> { match self { N::Sym(a) => Some(a), _ => None } }
    pub fn symbolic(&self) -> Option<&Atom> { match self { N::Sym(a) | N::Num(a) => Some(a), _ => None } }
    pub fn site(&self) -> &Site {
        match self {
            N::Sym(a) | N::Num(a) | N::Str(a) | N::Raw(a) => &a.site,
            N::List { site, .. } | N::Attr { site, .. } => site,
        }
    }
    pub fn ws(&self) -> &str {
        match self {
            N::Sym(a) | N::Num(a) | N::Str(a) | N::Raw(a) => &a.ws,
            N::List { ws, .. } | N::Attr { ws, .. } => ws,
        }
    }
    pub fn set_ws(&mut self, s: &str) {
        match self {
            N::Sym(a) | N::Num(a) | N::Str(a) | N::Raw(a) => a.ws = s.into(),
            N::List { ws, .. } | N::Attr { ws, .. } => *ws = s.into(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { L, R, Sym, Str, Num, Kw }

struct Tok { k: K, val: String, ws: String, off: usize }

struct P { src: Rc<Src>, i: usize }

fn blank(c: u8) -> bool { matches!(c, b'\n' | b'\r' | b'\t' | b' ') }

impl P {
    fn at(&self, off: usize) -> Site { Site { src: self.src.clone(), off } }
    fn rest(&self) -> &str { &self.src.text[self.i..] }

    /// Skip blanks and comments; what remains as leading whitespace.
    fn blanks(&mut self) -> String {
        let b = self.src.text.as_bytes();
        let mut start = self.i;
        while self.i < b.len() {
            if blank(b[self.i]) { self.i += 1; continue; }
            if b[self.i] != b';' { break; }
            while self.i < b.len() && b[self.i] != b'\n' { self.i += 1; }
            if self.i < b.len() { start = self.i; }
        }
        self.src.text[start..self.i].to_string()
    }
    fn eof(&self) -> bool {
        let mut p = P { src: self.src.clone(), i: self.i };
        p.blanks();
        p.rest().is_empty()
    }
    fn ident(&mut self) -> String {
        let t = &self.src.text;
        let start = self.i;
        let mut it = t[start..].char_indices();
        let mut end = t.len();
        while let Some((k, c)) = it.next() {
            if c == '\\' { it.next(); continue; }
            if c.is_ascii() && blank(c as u8) || matches!(c, '(' | ')' | '"') { end = start + k; break; }
        }
        self.i = end;
        t[start..end].to_string()
    }
    fn tok(&mut self) -> R<Tok> {
        let ws = self.blanks();
        let off = self.i;
        let c = self.rest().chars().next().expect("token at eof");
        let (k, val) = match c {
            '(' => { self.i += 1; (K::L, "(".into()) },
            ')' => { self.i += 1; (K::R, ")".into()) },
            '0'..='9' | '+' | '-' => (K::Num, self.ident()),
            ':' => { self.i += 1; (K::Kw, self.ident()) },
            '"' => {
                let q = if self.rest().starts_with("\"\"\"") { 3 } else { 1 };
                self.i += q;
                let start = self.i;
                let mut esc = false;
                loop {
                    let Some(c) = self.rest().chars().next() else { return self.at(off).fail("unclosed string") };
                    if !esc && self.rest().starts_with(&"\"\"\""[..q]) { break; }
                    esc = !esc && c == '\\';
                    self.i += c.len_utf8();
                }
                let v = self.src.text[start..self.i].to_string();
                self.i += q;
                (K::Str, v)
            },
            _ => (K::Sym, self.ident()),
        };
        Ok(Tok { k, val, ws, off })
    }
    fn peek(&self) -> R<Tok> { P { src: self.src.clone(), i: self.i }.tok() }

    fn expr(&mut self) -> R<N> {
        let t = self.tok()?;
        let site = self.at(t.off);
        let atom = |v| Atom { v, site: site.clone(), ws: t.ws.clone() };
        match t.k {
            K::R => site.fail("unexpected )"),
            K::Sym => Ok(N::Sym(atom(t.val.replace('\\', "")))),
            K::Num => Ok(N::Num(atom(t.val.replace('\\', "")))),
            K::Str => Ok(N::Str(atom(unescape(&t.val, &site)?))),
            K::Kw => {
                if self.eof() || self.peek()?.k == K::R { return site.fail("keyword without value"); }
                let node = Box::new(self.expr()?);
                Ok(N::Attr { kw: t.val, node, site, ws: t.ws })
            },
            K::L => {
                let mut nodes = vec![];
                while !self.eof() {
                    if self.peek()?.k == K::R {
                        let e = self.tok()?;
                        return Ok(N::List { nodes, site, end: self.at(e.off), end_ws: e.ws, ws: t.ws });
                    }
                    nodes.push(self.expr()?);
                }
                site.fail("unclosed list")
            },
        }
    }
}

fn unescape(s: &str, site: &Site) -> R<String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' { out.push(c); continue; }
        match it.next() {
            Some('n') => out.push('\n'),
            Some('t') => out.push('\t'),
            Some('r') => out.push('\r'),
            Some(c @ ('"' | '\\' | '\'')) => out.push(c),
            Some('u') => {
                let rest = it.as_str();
                let Some((hex, more)) = rest.strip_prefix('{').and_then(|r| r.split_once('}')) else { return skip("escape") };
                if hex.is_empty() || hex.len() > 6 || !hex.chars().all(|c| c.is_ascii_hexdigit()) { return skip("escape"); }
                let Some(c) = u32::from_str_radix(hex, 16).ok().and_then(char::from_u32) else { return skip("escape") };
                out.push(c);
                it = more.chars();
            },
            Some('q' | 'z' | 'Q' | 'w' | ' ' | '/' | '(' | 'p') => return site.fail("bad escape"),
            _ => return skip("escape"),
        }
    }
    Ok(out)
}

pub fn parse(path: &str, text: &str) -> R<Vec<N>> {
    let mut p = P { src: Rc::new(Src { path: path.into(), text: text.into() }), i: 0 };
    let mut v = vec![];
    while !p.eof() { v.push(p.expr()?); }
    Ok(v)
}

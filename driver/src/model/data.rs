//! The part of JSON, YAML and TOML whose meaning is beyond doubt.

#[derive(Clone, Debug, PartialEq)]
pub enum D {
    Str(String),
    /// A number or word that is not a string in TOML.
    Num(String),
    Word(String),
    Map(Vec<(String, D)>),
    Seq(Vec<D>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum P {
    Ok(D),
    Bad,
    /// Outside the part described here.
    Unknown,
}

/* ---------------------------------------------------------------- JSON -- */

enum E { Cut, Odd }

struct J<'a> { s: &'a [char], i: usize }

impl<'a> J<'a> {
    fn blanks(&mut self) { while matches!(self.s.get(self.i), Some(' ' | '\n')) { self.i += 1; } }
    fn string(&mut self) -> Result<String, E> {
        self.i += 1;
        let mut o = String::new();
        loop {
            match self.s.get(self.i) {
                None => return Err(E::Cut),
                Some('"') => { self.i += 1; return Ok(o) },
                Some('\\') => {
                    match self.s.get(self.i + 1) {
                        None => return Err(E::Cut),
                        Some('n') => o.push('\n'),
                        Some('t') => o.push('\t'),
                        Some(c @ ('"' | '\\' | '/')) => o.push(*c),
                        Some(_) => return Err(E::Odd),
                    }
                    self.i += 2;
                },
                Some(c) if (*c as u32) < 32 => return Err(E::Odd),
                Some(c) => { o.push(*c); self.i += 1; },
            }
        }
    }
    fn value(&mut self) -> Result<D, E> {
        self.blanks();
        match self.s.get(self.i) {
            None => Err(E::Cut),
            Some('"') => Ok(D::Str(self.string()?)),
            Some('{') => {
                self.i += 1;
                let mut m = vec![];
                loop {
                    self.blanks();
                    match self.s.get(self.i) {
                        None => return Err(E::Cut),
                        Some('}') if m.is_empty() => { self.i += 1; return Ok(D::Map(m)) },
                        Some('"') => {},
                        _ => return Err(E::Odd),
                    }
                    let k = self.string()?;
                    match self.s.get(self.i) {
                        None => return Err(E::Cut),
                        Some(':') => self.i += 1,
                        _ => return Err(E::Odd),
                    }
                    match self.s.get(self.i) {
                        None => return Err(E::Cut),
                        Some(' ' | '\n') => {},
                        _ => return Err(E::Odd),
                    }
                    let v = self.value()?;
                    m.push((k, v));
                    self.blanks();
                    match self.s.get(self.i) {
                        None => return Err(E::Cut),
                        Some(',') => self.i += 1,
                        Some('}') => { self.i += 1; return Ok(D::Map(m)) },
                        _ => return Err(E::Odd),
                    }
                }
            },
            Some('[') => {
                self.i += 1;
                let mut v = vec![];
                loop {
                    self.blanks();
                    match self.s.get(self.i) {
                        None => return Err(E::Cut),
                        Some(']') if v.is_empty() => { self.i += 1; return Ok(D::Seq(v)) },
                        _ => {},
                    }
                    v.push(self.value()?);
                    self.blanks();
                    match self.s.get(self.i) {
                        None => return Err(E::Cut),
                        Some(',') => {
                            self.i += 1;
                            if !matches!(self.s.get(self.i), None | Some(' ' | '\n')) { return Err(E::Odd); }
                        },
                        Some(']') => { self.i += 1; return Ok(D::Seq(v)) },
                        _ => return Err(E::Odd),
                    }
                }
            },
            Some(c) if c.is_ascii_alphanumeric() || *c == '-' => {
                let from = self.i;
                while self.s.get(self.i).map_or(false, |c| c.is_ascii_alphanumeric() || matches!(c, '.' | '-')) { self.i += 1; }
                let w: String = self.s[from..self.i].iter().collect();
                if self.i == self.s.len() { return Err(E::Cut); }
                if w.parse::<f64>().is_err() && !matches!(w.as_str(), "true" | "false" | "null") { return Err(E::Odd); }
                Ok(D::Str(w))
            },
            _ => Err(E::Odd),
        }
    }
}

/// JSON text as YAML reads it. Only objects and lists at the top.
pub fn json(text: &str) -> P {
    let s: Vec<char> = text.chars().collect();
    let mut j = J { s: &s, i: 0 };
    j.blanks();
    if !matches!(s.get(j.i), Some('{' | '[')) { return P::Unknown; }
    match j.value() {
        Err(E::Cut) => P::Bad,
        Err(E::Odd) => P::Unknown,
        Ok(d) => {
            let rest: String = s[j.i..].iter().collect();
            let rest = rest.trim_matches(|c| c == ' ' || c == '\n');
            if rest.is_empty() { return dup(d); }
            // Something follows a complete value.
            if rest.starts_with(['}', ']', '{', '[', '"']) || rest.starts_with(|c: char| c.is_ascii_alphanumeric()) {
                if rest.contains(": ") || rest.contains('#') || rest.contains("---") || rest.contains("...") {
                    // It may have become a key, a comment or another document.
                    if !rest.starts_with(['}', ']']) && !rest.starts_with('{') { return P::Unknown; }
                    if rest.starts_with('{') { return P::Bad; }
                }
                P::Bad
            } else { P::Unknown }
        },
    }
}

/// Repeated keys are left out of the description.
pub fn dup(d: D) -> P {
    fn has(d: &D) -> bool {
        match d {
            D::Map(m) => m.iter().enumerate().any(|(i, (k, v))| m[..i].iter().any(|x| x.0 == *k) || has(v)),
            D::Seq(v) => v.iter().any(has),
            _ => false,
        }
    }
    if has(&d) { P::Unknown } else { P::Ok(d) }
}

/* ---------------------------------------------------------------- YAML -- */

struct Y<'a> { l: Vec<(usize, &'a str)>, i: usize }

fn yscalar(s: &str) -> P {
    let s = s.trim_end();
    if s.is_empty() { return P::Unknown; }
    let plain = |c: char| c.is_ascii_alphanumeric() || matches!(c, ' ' | '_' | '.' | '-' | '/' | 'é' | '日' | '<' | '&' | '+');
    if let Some(r) = s.strip_prefix('"') {
        let c: Vec<char> = s.chars().collect();
        let mut j = J { s: &c, i: 0 };
        let _ = r;
        return match j.string() {
            Ok(v) if j.i == c.len() => P::Ok(D::Str(v)),
            Ok(_) => P::Unknown,
            Err(E::Cut) => P::Bad, // if nothing follows on later lines
            Err(E::Odd) => P::Unknown,
        };
    }
    if let Some(r) = s.strip_prefix('\'') {
        return match r.find('\'') {
            None => P::Bad,
            Some(i) if i + 1 == r.len() => P::Ok(D::Str(r[..i].into())),
            _ => P::Unknown,
        };
    }
    let first = s.chars().next().unwrap();
    if !s.chars().all(plain) || !(first.is_ascii_alphanumeric() || first == '/' || first == '<' || first == 'é' || first == '日')
        || s.starts_with("- ") { return P::Unknown; }
    P::Ok(D::Str(s.into()))
}

fn ykey(s: &str) -> Option<(&str, &str)> {
    let (k, v) = s.split_once(':')?;
    if k.is_empty() || !k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') || !k.starts_with(|c: char| c.is_ascii_alphabetic()) { return None; }
    if !v.is_empty() && !v.starts_with(' ') { return None; }
    Some((k, v.trim_start()))
}

impl<'a> Y<'a> {
    fn block(&mut self, ind: usize) -> Result<D, P> {
        let Some(&(n, s)) = self.l.get(self.i) else { return Err(P::Unknown) };
        if n != ind { return Err(P::Unknown); }
        if s == "-" || s.starts_with("- ") {
            let mut v = vec![];
            while let Some(&(n, s)) = self.l.get(self.i) {
                if n < ind { break; }
                if n != ind || !s.starts_with("- ") { return Err(P::Unknown); }
                let rest = &s[2..];
                if rest.starts_with(' ') || rest.starts_with("- ") { return Err(P::Unknown); }
                if ykey(rest).is_some() {
                    self.l[self.i] = (ind + 2, rest);
                    v.push(self.block(ind + 2)?);
                } else {
                    v.push(self.scalar(rest)?);
                }
            }
            return Ok(D::Seq(v));
        }
        let mut m: Vec<(String, D)> = vec![];
        while let Some(&(n, s)) = self.l.get(self.i) {
            if n < ind { break; }
            if n != ind { return Err(P::Unknown); }
            let Some((k, v)) = ykey(s) else { return Err(P::Unknown) };
            if m.iter().any(|x| x.0 == k) { return Err(P::Unknown); }
            if v.is_empty() {
                self.i += 1;
                match self.l.get(self.i) {
                    Some(&(n, _)) if n > ind => { let d = self.block(n)?; m.push((k.into(), d)); },
                    _ => return Err(P::Unknown),
                }
            } else {
                let d = self.scalar(v)?;
                m.push((k.into(), d));
            }
        }
        Ok(D::Map(m))
    }
    fn scalar(&mut self, s: &str) -> Result<D, P> {
        self.i += 1;
        match yscalar(s) {
            P::Ok(d) => Ok(d),
            // An open quote runs on into the following lines.
            P::Bad if self.l[self.i..].iter().all(|(_, l)| !l.contains(['"', '\''])) => Err(P::Bad),
            _ => Err(P::Unknown),
        }
    }
}

pub fn yaml(text: &str) -> P {
    let t = text.trim_start_matches([' ', '\n']);
    if t.starts_with(['{', '[']) { return json(text); }
    if text.contains('#') || text.chars().any(|c| c != '\n' && c.is_control() || c != ' ' && c != '\n' && c.is_whitespace()) { return P::Unknown; }
    if text.lines().any(|l| l.starts_with("---") || l.starts_with("...")) { return P::Unknown; }
    let l: Vec<(usize, &str)> = text.lines().filter(|l| !l.trim().is_empty())
        .map(|l| (l.len() - l.trim_start().len(), l.trim())).collect();
    if l.is_empty() || l[0].0 != 0 { return P::Unknown; }
    // Blank lines inside quotes would matter.
    let mut y = Y { l, i: 0 };
    match y.block(0) {
        Ok(d) if y.i == y.l.len() => dup(d),
        Ok(_) => P::Unknown,
        Err(p) => p,
    }
}

/* ---------------------------------------------------------------- TOML -- */

fn tvalue(c: &[char], i: &mut usize) -> Result<D, E> {
    match c.get(*i) {
        None => Err(E::Cut),
        Some('"') => {
            if c[*i..].starts_with(&['"', '"', '"']) { return Err(E::Odd); }
            let mut j = J { s: c, i: *i };
            let v = j.string()?;
            *i = j.i;
            Ok(D::Str(v))
        },
        Some('[') => {
            *i += 1;
            let mut v = vec![];
            loop {
                while c.get(*i) == Some(&' ') { *i += 1; }
                match c.get(*i) {
                    None => return Err(E::Cut),
                    Some(']') => { *i += 1; return Ok(D::Seq(v)) },
                    _ => {},
                }
                v.push(tvalue(c, i)?);
                while c.get(*i) == Some(&' ') { *i += 1; }
                match c.get(*i) {
                    None => return Err(E::Cut),
                    Some(',') => *i += 1,
                    Some(']') => {},
                    _ => return Err(E::Odd),
                }
            }
        },
        _ => {
            let from = *i;
            while c.get(*i).map_or(false, |c| c.is_ascii_alphanumeric() || matches!(c, '.' | '-' | ':')) { *i += 1; }
            let w: String = c[from..*i].iter().collect();
            if w == "true" || w == "false" { return Ok(D::Word(w)); }
            let digits = w.strip_prefix('-').unwrap_or(&w);
            let int = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit()) && (s == "0" || !s.starts_with('0')) && s.len() < 16;
            if int(digits) && w != "-0" { return Ok(D::Num(w)); }
            if let Some((a, b)) = digits.split_once('.') {
                if int(a) && !b.is_empty() && b.bytes().all(|x| x.is_ascii_digit()) && a.len() + b.len() < 14 {
                    return Ok(D::Num(format!("{}", w.parse::<f64>().unwrap())));
                }
                if int(a) && b.is_empty() { return Err(E::Cut); }
            }
            let b = w.as_bytes();
            if b.len() == 10 && b.iter().enumerate().all(|(i, x)| if i == 4 || i == 7 { *x == b'-' } else { x.is_ascii_digit() }) {
                let (y, m, d): (i64, i64, i64) = (w[..4].parse().unwrap(), w[5..7].parse().unwrap(), w[8..].parse().unwrap());
                if (1..=12).contains(&m) && d >= 1 && super::time::civil(super::time::days(y, m, d)) == (y, m, d) { return Ok(D::Word(w)); }
                return Err(E::Odd);
            }
            if w == "-" || w.is_empty() && *i == c.len() || ["t", "tr", "tru", "f", "fa", "fal", "fals"].contains(&w.as_str()) { return Err(E::Cut); }
            Err(E::Odd)
        },
    }
}

fn tkey(s: &str) -> bool { !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') }

pub fn toml(text: &str) -> P {
    if text.contains(['#', '\'']) || text.chars().any(|c| c != '\n' && c.is_control()) { return P::Unknown; }
    let mut root: Vec<(String, D)> = vec![];
    // Path to the table being filled.
    let mut at: Vec<String> = vec![];
    let lines: Vec<&str> = text.split('\n').collect();
    for (n, line) in lines.iter().enumerate() {
        let last = n + 1 == lines.len();
        let line = line.trim_matches(' ');
        if line.is_empty() { continue; }
        // What a line that is cut short means: nothing valid, wherever it is,
        // unless it may continue below.
        if let Some(r) = line.strip_prefix("[[") {
            let Some(name) = r.strip_suffix("]]") else {
                return if tkey(r.trim_end_matches(']')) || r.is_empty() { P::Bad } else { P::Unknown };
            };
            if !tkey(name) { return P::Unknown; }
            match root.iter_mut().find(|x| x.0 == name) {
                None => root.push((name.into(), D::Seq(vec![D::Map(vec![])]))),
                Some((_, D::Seq(v))) if matches!(v.first(), Some(D::Map(_))) => v.push(D::Map(vec![])),
                Some(_) => return P::Bad,
            }
            at = vec![name.into()];
            continue;
        }
        if let Some(r) = line.strip_prefix('[') {
            let Some(name) = r.strip_suffix(']') else {
                return if r.is_empty() || r.split('.').all(|k| k.is_empty() || tkey(k)) { P::Bad } else { P::Unknown };
            };
            let path: Vec<String> = name.split('.').map(|s| s.to_string()).collect();
            if !path.iter().all(|k| tkey(k)) || path.len() > 2 { return P::Unknown; }
            let mut m = &mut root;
            for (i, k) in path.iter().enumerate() {
                let fin = i + 1 == path.len();
                match m.iter().position(|x| x.0 == *k) {
                    None => m.push((k.clone(), D::Map(vec![]))),
                    Some(_) if fin => return P::Unknown, // defined already, or opened by a longer name
                    Some(_) => {},
                }
                let p = m.iter().position(|x| x.0 == *k).unwrap();
                match &mut m[p].1 { D::Map(x) => m = x, _ => return P::Unknown }
            }
            at = path;
            continue;
        }
        let Some((k, v)) = line.split_once('=') else {
            return if tkey(line) { P::Bad } else { P::Unknown };
        };
        let k = k.trim_end_matches(' ');
        if !tkey(k) { return P::Unknown; }
        let c: Vec<char> = v.trim_start_matches(' ').chars().collect();
        let mut i = 0;
        let d = match tvalue(&c, &mut i) {
            Ok(d) => d,
            Err(E::Cut) => {
                // A list may go on in the next line.
                return if c.first() == Some(&'[') && !last && lines[n + 1..].iter().any(|l| !l.trim().is_empty()) { P::Unknown } else { P::Bad };
            },
            Err(E::Odd) => return P::Unknown,
        };
        if i != c.len() { return if c[i] == ' ' || c[i] == '"' || c[i].is_ascii_alphanumeric() { P::Bad } else { P::Unknown }; }
        let mut m = &mut root;
        for k in &at {
            let p = m.iter().position(|x| x.0 == *k).unwrap();
            match &mut m[p].1 {
                D::Map(x) => m = x,
                D::Seq(v) => match v.last_mut() { Some(D::Map(x)) => m = x, _ => return P::Unknown },
                _ => return P::Unknown,
            }
        }
        if m.iter().any(|x| x.0 == k) { return P::Bad; }
        m.push((k.into(), d));
    }
    fn sorted(d: D) -> D {
        match d {
            D::Map(mut m) => {
                m.sort_by(|a, b| a.0.cmp(&b.0));
                D::Map(m.into_iter().map(|(k, v)| (k, sorted(v))).collect())
            },
            D::Seq(v) => D::Seq(v.into_iter().map(sorted).collect()),
            d => d,
        }
    }
    P::Ok(sorted(D::Map(root)))
}

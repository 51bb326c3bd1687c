//! Random numbers, escaping and hashing.

/// SplitMix64: one integer decides everything drawn from it.
#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed) }
    pub fn derive(seed: u64, label: &str, index: u64) -> Self {
        Rng(mix(mix(seed ^ 0x9e3779b97f4a7c15).wrapping_add(fnv(label.as_bytes()))
            .wrapping_add(mix(index.wrapping_add(0x632be59bd9b4e019)))))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    /// Uniform in 0..n.
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// Uniform in a..=b.
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + (self.next() % ((b - a + 1) as u64)) as i64
    }
    pub fn chance(&mut self, percent: u32) -> bool { self.below(100) < percent as usize }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T { &items[self.below(items.len())] }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() { items.swap(i, self.below(i + 1)); }
    }
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}

/// `=` followed by the bytes with everything unusual as `%XX`.
pub fn esc(bytes: &[u8]) -> String {
    let mut s = String::from("=");
    for &b in bytes {
        if b > 32 && b < 127 && b != b'%' { s.push(b as char); }
        else { s.push_str(&format!("%{:02X}", b)); }
    }
    s
}

pub fn unesc(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix('=')?.as_bytes();
    let mut out = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            let h = std::str::from_utf8(s.get(i + 1..i + 3)?).ok()?;
            out.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            out.push(s[i]);
            i += 1;
        }
    }
    Some(out)
}

pub fn lossy(b: &[u8]) -> String { String::from_utf8_lossy(b).into_owned() }

/// A path as text: bytes that are not text stand as characters of their own.
pub fn name(b: &[u8]) -> String {
    let mut s = String::new();
    for c in b.utf8_chunks() {
        s += c.valid();
        for x in c.invalid() { s.push(char::from_u32(0xF700 + *x as u32).unwrap()); }
    }
    s
}
pub fn raw(s: &str) -> Vec<u8> {
    let mut v = vec![];
    for c in s.chars() {
        match c as u32 { n @ 0xF780..=0xF7FF => v.push((n - 0xF700) as u8), _ => v.extend(c.to_string().as_bytes()) }
    }
    v
}

/// Without terminal colours.
pub fn plain(text: &str) -> String {
    let mut out = String::with_capacity(text.len());
    let mut chars = text.chars().peekable();
    while let Some(c) = chars.next() {
        if c == '\u{1b}' && chars.peek() == Some(&'[') {
            chars.next();
            for d in chars.by_ref() {
                if d.is_ascii_alphabetic() { break; }
            }
        } else {
            out.push(c);
        }
    }
    out
}

/// Every `(path:line:column)` in a diagnostic, paths normalised.
pub fn locations(text: &str) -> Vec<(String, u32, u32)> {
    let text = plain(text);
    let mut found = Vec::new();
    for (i, _) in text.match_indices(')') {
        // Backwards: digits ':' digits ':' path '('.
        let head = &text[..i];
        let Some((rest, col)) = head.rsplit_once(':') else { continue };
        let Ok(col) = col.parse::<u32>() else { continue };
        let Some((rest, line)) = rest.rsplit_once(':') else { continue };
        let Ok(line) = line.parse::<u32>() else { continue };
        let Some((_, path)) = rest.rsplit_once('(') else { continue };
        if path.contains('\n') { continue; }
        found.push((norm_path(path), line, col));
    }
    found
}

/// Drop `.` components and doubled slashes.
pub fn norm_path(p: &str) -> String {
    let abs = p.starts_with('/');
    let parts: Vec<&str> = p.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
    format!("{}{}", if abs { "/" } else { "" }, parts.join("/"))
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

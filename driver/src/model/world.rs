//! The file system, environment and standard streams as the model sees them.
use crate::case::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet};

pub const ENOENT: i64 = 2;
pub const EIO: i64 = 5;
pub const ENOTDIR: i64 = 20;
pub const EISDIR: i64 = 21;
pub const ELOOP: i64 = 40;

pub struct World {
    pub tree: BTreeMap<String, VNode>,
    pub cwd: String,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub stdin: Vec<u8>,
    pub dirs: Vec<Dir>,
    pub mut_hits: Vec<(i64, bool)>,
    pub clock: i64,
    /// Successfully opened for their content, in order (canonical paths).
    pub opened: Vec<String>,
    /// Everything the build is allowed to look at (canonical paths).
    pub touched: BTreeSet<String>,
    vague: bool,
    /// A fault that may or may not be reached.
    pub unclear: bool,
}

impl World {
    pub fn new(case: &Case, run: &Run) -> World {
        let tree = case.full_tree(run);
        let mut clock = 0;
        for d in &run.dirs {
            if let Dir::Plain(s) = d {
                if let Some(r) = s.strip_prefix("clock ") { clock = r.split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0); }
            }
        }
        World {
            tree, cwd: case.cwd.clone(), env: run.env.clone(), stdin: run.stdin.clone(),
            dirs: run.dirs.clone(), mut_hits: vec![(0, false); run.dirs.len()], clock,
            opened: vec![], touched: BTreeSet::new(), vague: false, unclear: false,
        }
    }

    /// Canonical path, or the error together with how far it got.
    pub fn resolve(&self, path: &str) -> Result<String, (i64, String)> {
        let mut work = if path.starts_with('/') { path.to_string() } else { format!("{}/{}", self.cwd, path) };
        if path.is_empty() { return Err((ENOENT, String::new())); }
        let mut links = 0;
        'again: loop {
            let mut cur = String::new();
            let comps: Vec<&str> = work.split('/').filter(|c| !c.is_empty()).collect();
            let trailing = work.ends_with('/');
            for (i, c) in comps.iter().enumerate() {
                if !cur.is_empty() && !matches!(self.tree.get(&cur).map(|n| &n.kind), Some(NodeKind::Dir)) {
                    return Err((ENOTDIR, cur));
                }
                if *c == "." { continue; }
                if *c == ".." { cur = cur.rsplit_once('/').map(|x| x.0.to_string()).unwrap_or_default(); continue; }
                let next = format!("{}/{}", cur, c);
                let Some(n) = self.tree.get(&next) else {
                    let rest: String = comps[i + 1..].iter().map(|c| format!("/{}", c)).collect();
                    return Err((ENOENT, format!("{}{}", next, rest)));
                };
                if let NodeKind::Link(t) = &n.kind {
                    links += 1;
                    if links > 20 { return Err((ELOOP, next)); }
                    let t = lossy(t);
                    let rest: String = comps[i + 1..].iter().map(|c| format!("/{}", c)).collect();
                    let slash = if trailing && rest.is_empty() { "/" } else { "" };
                    work = if t.starts_with('/') { format!("{}{}{}", t, rest, slash) } else { format!("{}/{}{}{}", cur, t, rest, slash) };
                    continue 'again;
                }
                cur = next;
            }
            if trailing && !matches!(self.tree.get(&cur).map(|n| &n.kind), Some(NodeKind::Dir)) { return Err((ENOTDIR, cur)); }
            return Ok(cur);
        }
    }
    pub fn node(&self, canon: &str) -> Option<&VNode> { self.tree.get(canon) }

    fn fault(&self, op: &str, canon: &str) -> Option<i64> {
        // Transient interruptions are invisible; every other fault is for good.
        self.dirs.iter().find_map(|d| match d {
            Dir::Fault { op: o, path, errno, .. } if o == op && *errno != 4 && (path == "*" || path == canon || path == "/" && canon.is_empty()) => Some(*errno),
            _ => None,
        })
    }
    pub fn any_fault(&self, op: &str, canon: &str) -> Option<i64> { self.fault(op, canon) }

    pub fn mutate(&mut self, op: &str, canon: &str) {
        for i in 0..self.dirs.len() {
            let Dir::Mut { op: o, path, nth, act } = self.dirs[i].clone() else { continue };
            if o != op || (path != "*" && path != canon) || self.mut_hits[i].1 { continue; }
            self.mut_hits[i].0 += 1;
            if self.mut_hits[i].0 < nth { continue; }
            self.mut_hits[i].1 = true;
            match act {
                Act::Set(t, d) => {
                    let old = self.tree.get(&t).cloned().unwrap_or(VNode { kind: NodeKind::Dir, mtime: 0, btime: 0 });
                    for (i, _) in t.match_indices('/').skip(1) {
                        self.tree.entry(t[..i].to_string()).or_insert_with(|| VNode { kind: NodeKind::Dir, mtime: 0, btime: 0 });
                    }
                    self.tree.insert(t, VNode { kind: NodeKind::File(d), ..old });
                },
                Act::Write(t, d) => if let Some(n) = self.tree.get_mut(&t) {
                    if let NodeKind::File(x) = &mut n.kind { *x = d; }
                },
                Act::Del(t) => {
                    let below = format!("{}/", t);
                    self.tree.retain(|p, _| *p != t && !p.starts_with(&below));
                },
                Act::Clock(n) => self.clock = n,
                Act::Mtime(t, n) => if let Some(x) = self.tree.get_mut(&t) { x.mtime = n; },
            }
        }
    }

    /// Read a whole file as text.
    pub fn read(&mut self, path: &str) -> Result<String, i64> {
        let canon = match self.resolve(path) {
            Ok(c) => c,
            Err((e, at)) => { self.touched.insert(at.clone()); self.touched.insert(norm_path(&self.absolute(path))); return Err(e) },
        };
        self.touched.insert(canon.clone());
        if let Some(e) = self.fault("open", &canon) { return Err(e); }
        let content = match self.tree.get(&canon).map(|n| n.kind.clone()) {
            Some(NodeKind::File(d)) => Some(d),
            _ => None,
        };
        if let Some(NodeKind::Sock) = self.tree.get(&canon).map(|n| &n.kind) { return Err(6); }
        self.mutate("open", &canon);
        self.opened.push(canon.clone());
        let Some(content) = content else { return Err(EISDIR) };
        if let Some(e) = self.fault("read", &canon) {
            // A later piece is asked for only of what comes in pieces.
            let late = self.dirs.iter().filter_map(|d| match d { Dir::Fault { op, path, nth, errno, .. } if op == "read" && *errno != 4 && (path == "*" || *path == canon) => Some(*nth), _ => None }).min().unwrap_or(1);
            let piece = self.dirs.iter().filter_map(|d| match d { Dir::Chunk(p, v) if *p == canon => v.iter().max().copied(), _ => None }).min();
            let least = piece.map_or(1, |m| content.len() as i64 / (m as i64).max(1) + 1);
            if late > least { self.unclear = true; }
            return Err(e);
        }
        String::from_utf8(content).map_err(|_| -1)
    }
    pub fn absolute(&self, path: &str) -> String {
        if path.starts_with('/') { path.into() } else { format!("{}/{}", self.cwd, path) }
    }
    pub fn exists(&self, path: &str) -> bool { matches!(self.stat(path), Ok(_)) }
    pub fn stat(&self, path: &str) -> Result<VNode, i64> {
        let c = self.resolve(path).map_err(|e| e.0)?;
        if let Some(e) = self.fault("stat", &c) { return Err(e); }
        self.tree.get(&c).cloned().ok_or(ENOENT)
    }
    pub fn is_dir(&self, path: &str) -> bool {
        self.resolve(path).ok().and_then(|c| self.tree.get(&c).cloned()).map_or(false, |n| n.kind == NodeKind::Dir)
    }
    pub fn var(&self, name: &str) -> Option<String> {
        let (_, v) = self.env.iter().find(|(k, _)| k == name.as_bytes())?;
        String::from_utf8(v.clone()).ok()
    }
    /// Names in a directory (canonical path), sorted.
    pub fn list(&self, canon: &str) -> Vec<String> {
        let pre = format!("{}/", canon);
        self.tree.keys().filter_map(|p| p.strip_prefix(&pre)).filter(|r| !r.is_empty() && !r.contains('/')).map(|r| r.to_string()).collect()
    }
}

/* ---------------------------------------------------------------- glob -- */

/// None: malformed pattern.
fn compile(p: &str) -> Option<Vec<G>> {
    let c: Vec<char> = p.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    while i < c.len() {
        match c[i] {
            '?' => out.push(G::One),
            '*' => {
                let n = c[i..].iter().take_while(|x| **x == '*').count();
                if n > 2 || (n == 2 && c.len() != 2) { return None; }
                if n == 2 { return Some(vec![G::Deep]); }
                out.push(G::Many);
            },
            '[' => {
                let neg = c.get(i + 1) == Some(&'!');
                let from = i + 1 + neg as usize;
                // The first member may be a closing bracket.
                let end = from + 1 + c.get(from + 1..)?.iter().position(|x| *x == ']')?;
                let m = &c[from..end];
                let mut set = vec![];
                let mut k = 0;
                while k < m.len() {
                    if k + 2 < m.len() && m[k + 1] == '-' { set.push((m[k], m[k + 2])); k += 3; }
                    else { set.push((m[k], m[k])); k += 1; }
                }
                out.push(G::Set(neg, set));
                i = end;
            },
            x => out.push(G::Lit(x)),
        }
        i += 1;
    }
    Some(out)
}

#[derive(Clone, Debug)]
enum G { Lit(char), One, Many, Deep, Set(bool, Vec<(char, char)>) }

fn matches(p: &[G], s: &[char]) -> bool {
    match p.first() {
        None => s.is_empty(),
        Some(G::Many) => (0..=s.len()).any(|k| matches(&p[1..], &s[k..])),
        Some(g) => match s.first() {
            None => false,
            Some(c) => (match g {
                G::Lit(x) => x == c,
                G::One => true,
                G::Set(neg, set) => set.iter().any(|(a, b)| a <= c && c <= b) != *neg,
                _ => false,
            }) && matches(&p[1..], &s[1..]),
        },
    }
}

impl World {
    /// Paths matching a pattern; Err: the listing fails. None: not described.
    pub fn glob(&mut self, pattern: &str) -> Option<Result<Vec<String>, ()>> {
        let abs = pattern.starts_with('/');
        if pattern.is_empty() { return None; }
        let require_dir = pattern.ends_with('/');
        let comps: Vec<&str> = pattern.split('/').filter(|c| !c.is_empty()).collect();
        if comps.iter().any(|c| *c == "." || *c == "..") || pattern.contains("//") { return None; }
        let mut pats = vec![];
        for c in &comps {
            if c.starts_with('.') && c.contains(['*', '?', '[']) { return None; }
            match compile(c) {
                Some(g) => pats.push(g),
                None => return Some(Err(())),
            }
        }
        // Everything is a wildcard except a component of literals only.
        let mut found = vec![];
        self.vague = false;
        let r = self.glob_in(&pats, if abs { "/" } else { "" }, &mut found);
        if self.vague { return None; }
        if r.is_err() { return Some(Err(())); }
        if require_dir { found.retain(|p| self.is_dir(p)); }
        found.sort();
        found.dedup();
        Some(Ok(found))
    }

    fn glob_in(&mut self, pats: &[Vec<G>], at: &str, found: &mut Vec<String>) -> Result<(), ()> {
        let join = |name: &str| match at { "" => name.to_string(), "/" => format!("/{}", name), _ => format!("{}/{}", at, name) };
        let here = if at.is_empty() { "." } else { at };
        let Some(p) = pats.first() else { found.push(at.to_string()); return Ok(()) };
        if p.iter().all(|g| matches!(g, G::Lit(_))) {
            let name: String = p.iter().map(|g| match g { G::Lit(c) => *c, _ => ' ' }).collect();
            let next = join(&name);
            self.touch_path(&next);
            // Named outright: what cannot be examined is not there. Whether a
            // failing examination may also be an error is left open.
            match self.stat(&next) {
                Ok(_) => self.glob_in(&pats[1..], &next, found)?,
                Err(ENOENT | ENOTDIR) => {},
                Err(_) => self.vague = true,
            }
            return Ok(());
        }
        if !self.is_dir(here) { return Ok(()); }
        let canon = self.resolve(here).map_err(|_| ())?;
        self.touched.insert(canon.clone());
        match self.fault("opendir", &canon) {
            Some(ENOENT) => return Ok(()),
            Some(_) => return Err(()),
            None => {},
        }
        if self.fault("readdir", &canon).is_some() { return Err(()); }
        let names = self.list(&canon);
        self.mutate("opendir", &canon);
        if let [G::Deep] = p[..] {
            let mut rest = &pats[1..];
            while let Some([G::Deep]) = rest.first().map(|p| &p[..]) { rest = &rest[1..]; }
            // Zero directories below this one...
            if rest.is_empty() {
                for n in &names {
                    let next = join(n);
                    self.touch_path(&next);
                    if self.is_dir(&next) { found.push(next); }
                }
            } else {
                self.glob_in(rest, at, found)?;
            }
            // ... or more.
            for n in &names {
                let next = join(n);
                self.touch_path(&next);
                if self.is_dir(&next) { self.glob_in(pats, &next, found)?; }
            }
            return Ok(());
        }
        for n in names {
            if !matches(p, &n.chars().collect::<Vec<_>>()) { continue; }
            let next = join(&n);
            self.touch_path(&next);
            if pats.len() > 1 && !self.is_dir(&next) { continue; }
            self.glob_in(&pats[1..], &next, found)?;
        }
        Ok(())
    }
    pub fn touch_path(&mut self, p: &str) {
        let c = match self.resolve(p) { Ok(c) => c, Err((_, c)) => c };
        self.touched.insert(c);
    }
    fn lexists(&self, p: &str) -> bool {
        if self.resolve(p).is_ok() { return true; }
        // A dangling link is still an entry.
        let abs = self.absolute(p);
        let (dir, name) = abs.rsplit_once('/').unwrap_or(("", &abs));
        match self.resolve(if dir.is_empty() { "/" } else { dir }) {
            Ok(c) => self.tree.contains_key(&format!("{}/{}", c, name)),
            Err(_) => false,
        }
    }
}

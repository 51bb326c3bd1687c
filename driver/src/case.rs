//! One simulated experiment as plain data: the world, the runs made in it and
//! the faults injected into them. Its text form is the replay file.
use crate::util::*;
use std::collections::BTreeMap;

#[derive(Clone, PartialEq, Debug)]
pub enum NodeKind {
    Dir,
    File(Vec<u8>),
    Link(Vec<u8>),
    /// A socket: it exists, and is neither file nor directory.
    Sock,
}

#[derive(Clone, PartialEq, Debug)]
pub struct VNode {
    pub kind: NodeKind,
    pub mtime: i64,
    pub btime: i64,
}

/// A line of the scenario that is not part of the file tree.
#[derive(Clone, PartialEq, Debug)]
pub enum Dir {
    Chunk(String, Vec<u32>),
    WLimit(u32, Vec<u32>),
    Fault { op: String, path: String, nth: i64, count: i64, errno: i64 },
    Mut { op: String, path: String, nth: i64, act: Act },
    /// Anything without structure the oracles look into.
    Plain(String),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Act {
    Set(String, Vec<u8>),
    Write(String, Vec<u8>),
    Del(String),
    Clock(i64),
    Mtime(String, i64),
}

impl Dir {
    pub fn line(&self) -> String {
        let list = |v: &Vec<u32>| v.iter().map(|n| n.to_string()).collect::<Vec<_>>().join(",");
        match self {
            Dir::Chunk(p, v) => format!("chunk {} {}", path_arg(p), list(v)),
            Dir::WLimit(fd, v) => format!("wlimit {} {}", fd, list(v)),
            Dir::Fault { op, path, nth, count, errno } =>
                format!("fault {} {} {} {} {}", op, path_arg(path), nth, count, errno),
            Dir::Mut { op, path, nth, act } => {
                let act = match act {
                    Act::Set(t, d) => format!("set {} {}", path_arg(t), esc(d)),
                    Act::Write(t, d) => format!("write {} {}", path_arg(t), esc(d)),
                    Act::Del(t) => format!("del {}", path_arg(t)),
                    Act::Clock(n) => format!("clock - {}", n),
                    Act::Mtime(t, n) => format!("mtime {} {}", path_arg(t), n),
                };
                format!("mut {} {} {} {}", op, path_arg(path), nth, act)
            },
            Dir::Plain(s) => s.clone(),
        }
    }
    pub fn parse(line: &str) -> Option<Dir> {
        let w: Vec<&str> = line.split(' ').collect();
        let nums = |s: &str| s.split(',').map(|n| n.parse().ok()).collect::<Option<Vec<u32>>>();
        Some(match *w.first()? {
            "chunk" => Dir::Chunk(arg_path(w.get(1)?)?, nums(w.get(2)?)?),
            "wlimit" => Dir::WLimit(w.get(1)?.parse().ok()?, nums(w.get(2)?)?),
            "fault" => Dir::Fault {
                op: w.get(1)?.to_string(), path: arg_path(w.get(2)?)?,
                nth: w.get(3)?.parse().ok()?, count: w.get(4)?.parse().ok()?, errno: w.get(5)?.parse().ok()?,
            },
            "mut" => Dir::Mut {
                op: w.get(1)?.to_string(), path: arg_path(w.get(2)?)?, nth: w.get(3)?.parse().ok()?,
                act: match *w.get(4)? {
                    "set" => Act::Set(arg_path(w.get(5)?)?, unesc(w.get(6)?)?),
                    "write" => Act::Write(arg_path(w.get(5)?)?, unesc(w.get(6)?)?),
                    "del" => Act::Del(arg_path(w.get(5)?)?),
                    "clock" => Act::Clock(w.get(6)?.parse().ok()?),
                    "mtime" => Act::Mtime(arg_path(w.get(5)?)?, w.get(6)?.parse().ok()?),
                    _ => return None,
                },
            },
            _ => Dir::Plain(line.to_string()),
        })
    }
}

fn path_arg(p: &str) -> String { if p == "*" { p.into() } else { esc(&raw(p)) } }
fn arg_path(s: &str) -> Option<String> {
    if s == "*" || s == "-" { return Some(s.into()); }
    Some(name(&unesc(s)?))
}

/// One process started in the world.
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Run {
    pub label: String,
    pub args: Vec<Vec<u8>>,
    pub env: Vec<(Vec<u8>, Vec<u8>)>,
    pub stdin: Vec<u8>,
    /// Files that differ from the shared world; None removes the path.
    pub overlay: Vec<(String, Option<VNode>)>,
    pub dirs: Vec<Dir>,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub seed: u64,
    pub index: u64,
    pub kind: String,
    pub cwd: String,
    pub tree: BTreeMap<String, VNode>,
    pub runs: Vec<Run>,
    pub params: BTreeMap<String, String>,
}

pub const T0: i64 = 1_600_000_000_000_000_000;

impl VNode {
    pub fn file(data: impl Into<Vec<u8>>) -> Self { VNode { kind: NodeKind::File(data.into()), mtime: T0, btime: T0 } }
    pub fn dir() -> Self { VNode { kind: NodeKind::Dir, mtime: T0, btime: T0 } }
    pub fn link(t: &str) -> Self { VNode { kind: NodeKind::Link(t.as_bytes().to_vec()), mtime: T0, btime: T0 } }
    fn line(&self, path: &str) -> String {
        let p = esc(&raw(path));
        match &self.kind {
            NodeKind::Dir => format!("dir {} {} {}", p, self.mtime, self.btime),
            NodeKind::File(d) => format!("file {} {} {} {}", p, self.mtime, self.btime, esc(d)),
            NodeKind::Sock => format!("sock {} {} {}", p, self.mtime, self.btime),
            NodeKind::Link(t) => format!("link {} {}", p, esc(t)),
        }
    }
    fn parse(w: &[&str]) -> Option<(String, VNode)> {
        let path = name(&unesc(w.get(1)?)?);
        let node = match *w.first()? {
            "dir" => VNode { kind: NodeKind::Dir, mtime: w.get(2)?.parse().ok()?, btime: w.get(3)?.parse().ok()? },
            "sock" => VNode { kind: NodeKind::Sock, mtime: w.get(2)?.parse().ok()?, btime: w.get(3)?.parse().ok()? },
            "file" => VNode { kind: NodeKind::File(unesc(w.get(4)?)?), mtime: w.get(2)?.parse().ok()?, btime: w.get(3)?.parse().ok()? },
            "link" => VNode { kind: NodeKind::Link(unesc(w.get(2)?)?), mtime: T0, btime: T0 },
            _ => return None,
        };
        Some((path, node))
    }
}

impl Case {
    pub fn new(prop: &str, seed: u64, index: u64) -> Self {
        Case { prop: prop.into(), seed, index, kind: "seam".into(), cwd: "/w".into(), ..Default::default() }
    }
    pub fn put(&mut self, path: &str, data: impl Into<Vec<u8>>) {
        self.tree.insert(path.into(), VNode::file(data));
    }
    pub fn param(&self, k: &str) -> &str { self.params.get(k).map(|s| s.as_str()).unwrap_or("") }
    pub fn set(&mut self, k: &str, v: impl Into<String>) { self.params.insert(k.into(), v.into()); }

    /// The file tree one run sees.
    pub fn tree_of(&self, run: &Run) -> BTreeMap<String, VNode> {
        let mut t = self.tree.clone();
        for (p, n) in &run.overlay {
            match n { Some(n) => { t.insert(p.clone(), n.clone()); }, None => { t.remove(p); } }
        }
        t
    }
    /// The same with every implied directory.
    pub fn full_tree(&self, run: &Run) -> BTreeMap<String, VNode> {
        let mut tree = self.tree_of(run);
        tree.insert(self.cwd.clone(), VNode::dir());
        for p in tree.keys().cloned().collect::<Vec<_>>() {
            for (i, _) in p.match_indices('/').skip(1) {
                tree.entry(p[..i].to_string()).or_insert_with(VNode::dir);
            }
        }
        tree.insert(String::new(), VNode::dir());
        tree
    }
    /// The scenario file for libsim.
    pub fn scenario(&self, run: &Run) -> String {
        let mut s = format!("cwd {}\n", esc(self.cwd.as_bytes()));
        s += &format!("dir {} {} {}\n", esc(self.cwd.as_bytes()), T0, T0);
        // Implied parents too, so that they have the times the model gives them.
        for (p, n) in &self.full_tree(run) { if !p.is_empty() { s += &n.line(p); s.push('\n'); } }
        s += &format!("stdin {}\n", esc(&run.stdin));
        for d in &run.dirs { s += &d.line(); s.push('\n'); }
        s
    }
    pub fn text(&self) -> String {
        let mut s = format!("case {} seed {} index {} kind {}\n", self.prop, self.seed, self.index, self.kind);
        s += &format!("cwd {}\n", esc(self.cwd.as_bytes()));
        for (k, v) in &self.params { s += &format!("param {} {}\n", k, esc(v.as_bytes())); }
        for (p, n) in &self.tree { s += &n.line(p); s.push('\n'); }
        for r in &self.runs {
            s += &format!("run {}\n", esc(r.label.as_bytes()));
            for a in &r.args { s += &format!(" arg {}\n", esc(a)); }
            for (k, v) in &r.env { s += &format!(" env {} {}\n", esc(k), esc(v)); }
            if !r.stdin.is_empty() { s += &format!(" stdin {}\n", esc(&r.stdin)); }
            for (p, n) in &r.overlay {
                match n {
                    Some(n) => s += &format!(" over {}\n", n.line(p)),
                    None => s += &format!(" gone {}\n", esc(&raw(p))),
                }
            }
            for d in &r.dirs { s += &format!(" sim {}\n", d.line()); }
        }
        s
    }
    pub fn parse(text: &str) -> Option<Case> {
        let mut c = Case::default();
        for line in text.lines() {
            if line.is_empty() || line.starts_with('#') { continue; }
            if let Some(l) = line.strip_prefix(' ') {
                let r = c.runs.last_mut()?;
                let (k, rest) = l.split_once(' ')?;
                let w: Vec<&str> = rest.split(' ').collect();
                match k {
                    "arg" => r.args.push(unesc(rest)?),
                    "env" => r.env.push((unesc(w.first()?)?, unesc(w.get(1)?)?)),
                    "stdin" => r.stdin = unesc(rest)?,
                    "over" => { let (p, n) = VNode::parse(&w)?; r.overlay.push((p, Some(n))); },
                    "gone" => r.overlay.push((name(&unesc(rest)?), None)),
                    "sim" => r.dirs.push(Dir::parse(rest)?),
                    _ => return None,
                }
                continue;
            }
            let w: Vec<&str> = line.split(' ').collect();
            match w[0] {
                "case" => {
                    c.prop = w.get(1)?.to_string();
                    c.seed = w.get(3)?.parse().ok()?;
                    c.index = w.get(5)?.parse().ok()?;
                    c.kind = w.get(7)?.to_string();
                },
                "cwd" => c.cwd = String::from_utf8(unesc(w.get(1)?)?).ok()?,
                "param" => { c.params.insert(w.get(1)?.to_string(), String::from_utf8(unesc(w.get(2)?)?).ok()?); },
                "run" => c.runs.push(Run { label: String::from_utf8(unesc(w.get(1)?)?).ok()?, ..Default::default() }),
                "dir" | "file" | "link" => { let (p, n) = VNode::parse(&w)?; c.tree.insert(p, n); },
                _ => return None,
            }
        }
        Some(c)
    }
}

impl Run {
    pub fn new(label: &str, args: &[&str]) -> Self {
        Run { label: label.into(), args: args.iter().map(|a| a.as_bytes().to_vec()).collect(), ..Default::default() }
    }
    pub fn plain(&mut self, s: impl Into<String>) { self.dirs.push(Dir::Plain(s.into())); }
    pub fn fault(&mut self, op: &str, path: &str, nth: i64, count: i64, errno: i64) {
        self.dirs.push(Dir::Fault { op: op.into(), path: path.into(), nth, count, errno });
    }
}

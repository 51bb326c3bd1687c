//! The worlds the cases play in.
use crate::case::*;
use crate::gen::*;
use crate::model::time::Zone;
use crate::util::*;

#[derive(Clone, Default)]
pub struct Opt {
    pub feats: Feats,
    /// Number of source files at most.
    pub docs: usize,
    /// Chance in percent that standard input is a source too.
    pub stdin: u32,
    /// Chance in percent of documents of several kilobytes.
    pub big: u32,
    /// Chance per thousand of one of up to megabytes.
    pub huge: u32,
    /// Their largest size.
    pub most: usize,
    pub zone: u32,
    pub target: Option<&'static str>,
}

impl Opt {
    pub fn new(feats: Feats) -> Opt { Opt { feats, docs: 1, most: usize::MAX, ..Default::default() } }
}

const ENV_VALUES: [&str; 10] = ["va", "", "<v&\"b\\>", "a b  c", "é日本😀", "%x", "(x)", "; no", "line\nbreak", "'"];

pub fn environment(r: &mut Rng) -> Vec<(String, String)> {
    let names = ["A", "SEAM_B", "B_é", "lower", "X-Y", "EMPTY_V"];
    let mut v = vec![];
    for n in names { if r.chance(50) { v.push((n.to_string(), r.pick(&ENV_VALUES).to_string())); } }
    v
}

/// Directories to list.
pub fn listing_tree(r: &mut Rng, case: &mut Case) -> Vec<String> {
    let base = ["g", "docs/posts", "g/deep"][r.below(3)];
    let names = ["a.txt", "b.txt", "c.md", "d e.md", "Z.txt", ".hid", "é.txt", "10", "9"];
    for n in names {
        if !r.chance(45) { continue; }
        let p = format!("/w/{}/{}", base, n);
        let node = match r.below(9) {
            0 => VNode::dir(),
            1 => VNode::link("a.txt"),
            2 if r.chance(50) => VNode::link("gone"),
            _ => VNode::file("x"),
        };
        case.tree.insert(p, VNode { mtime: T0 + r.range(0, 3) * 1_000_000_000 + r.range(0, 1), btime: T0 + r.range(0, 3), ..node });
    }
    if r.chance(50) { case.put(&format!("/w/{}/sub/in.txt", base), "1"); }
    vec![format!("{}/*", base), format!("{}/*.txt", base), format!("{}/**/*.txt", base), format!("{}/?.*", base), format!("/w/{}/*", base)]
}

pub fn put_zone(case: &mut Case, run: &mut Run, r: &mut Rng) -> Zone {
    let z = zone(r);
    let data = z.tzif();
    if r.chance(50) {
        case.put("/etc/localtime", data);
    } else {
        let n = ["Test/Zone", "Simland", "Etc/Odd-1"][r.below(3)];
        case.put(&format!("/usr/share/zoneinfo/{}", n), data);
        let colon = if r.chance(30) { ":" } else { "" };
        run.env.push((b"TZ".to_vec(), format!("{}{}", colon, n).into_bytes()));
    }
    z
}

/// A world with sources, and the plain run that builds them.
pub fn world(case: &mut Case, r: &mut Rng, o: &Opt) -> Run {
    let target = o.target.unwrap_or_else(|| *r.pick(&TARGETS));
    let mut run = Run::new("base", &[&format!("--{}", target)]);
    run.env.extend(environment(r).into_iter().map(|(k, v)| (k.into_bytes(), v.into_bytes())));
    let mut globs = vec![];
    if o.feats.glob { globs = listing_tree(r, case); }
    let mut dirs = vec![".".to_string()];
    if (o.feats.include || o.feats.embed) && r.chance(50) {
        for d in ["inc", "./lib/", "/abs/x", "in c"] {
            if r.chance(40) { run.args.push(format!("-I{}", d).into_bytes()); dirs.push(d.into()); }
        }
    }
    if r.chance(20) { run.args.push(b"--nodoc".to_vec()); }
    if r.chance(o.zone) { put_zone(case, &mut run, r); }
    run.plain(clock(r));
    let n = 1 + r.below(o.docs.max(1));
    let stdin = r.chance(o.stdin);
    let huge = (r.below(1000) as u32) < o.huge;
    if huge { case.set("huge", "1"); }
    for i in 0..n + stdin as usize {
        let sub = Rng::new(r.next());
        let mut f = o.feats.clone().some(r);
        if f.err > 0 && r.chance(50) { f.err = 0; }
        let env: Vec<(String, String)> = run.env.iter().map(|(k, v)| (lossy(k), lossy(v))).filter(|e| e.0 != "TZ").collect();
        let mut g = Gen::new(case, sub, target, f);
        g.uid = 100 * i as u32;
        g.env = env;
        g.globs = globs.clone();
        g.dirs = dirs.clone();
        let mut doc = g.doc();
        if huge && i == 0 { let n = [70_000, 140_000, 140_000, 300_000, 1_100_000, 2_200_000][r.below(6)].min(o.most); doc = fill(r, target, doc, n); }
        else if r.chance(o.big) { doc = grow(r, target, doc); }
        if stdin && i == 0 {
            run.stdin = doc.into_bytes();
            run.args.push(b"-".to_vec());
            continue;
        }
        let p = match r.below(6) { 0 => format!("docs/m{}.sex", i), 1 => format!("./m{}.sex", i), 2 => format!("/w/m{}.sex", i), _ => format!("m{}.sex", i) };
        let abs = if p.starts_with('/') { p.clone() } else { norm_path(&format!("/w/{}", p)) };
        case.put(&abs, doc);
        run.args.push(p.into_bytes());
    }
    run
}

/// Make a document several kilobytes long, in and out.
pub fn grow(r: &mut Rng, target: &str, doc: String) -> String {
    let n = [300, 1100, 2500, 9000, 20_000, 40_000][r.below(6)];
    fill(r, target, doc, n)
}

/// With something of about n bytes before or after it.
pub fn fill(r: &mut Rng, target: &str, doc: String, n: usize) -> String {
    let mut s = String::new();
    match if target == "css" { 1 + if n > 60_000 { r.below(4) } else { 0 } } else { [0, 1, 2, 3, 4, 1, 1][r.below(if n > 60_000 { 7 } else { 3 })] } {
        0 => {
            s += "(p \"";
            while s.len() < n {
                s += ["word ", "é", "日本 ", "line\n", "0123456789"][r.below(5)];
            }
            s += "\")\n";
        },
        1 => {
            while s.len() < n.min(if n > 60_000 { 400_000 } else { 9000 }) { s += &format!("(p :k{} {})\n", r.below(100), r.next()); }
        },
        // Many lines; a long one.
        3 => s += &"\n".repeat(n.min(200_000)),
        4 => s += &" ".repeat(n.min(200_000)),
        _ => {
            while s.len() < n { s += &format!("; {} é {}\n", "comment ".repeat(r.below(12)), r.next()); }
        },
    }
    if r.chance(50) { format!("{}{}", s, doc) } else { format!("{}\n{}", doc, s) }
}

/// Large documents are read and written in larger pieces.
pub fn coarse(case: &mut Case) {
    if case.param("huge").is_empty() { return; }
    for d in case.runs.iter_mut().flat_map(|r| r.dirs.iter_mut()) {
        if let Dir::Chunk(_, v) | Dir::WLimit(_, v) = d { for n in v { if *n < 1000 { *n *= 997; } } }
        if let Dir::Fault { op, nth, .. } = d { if op == "read" { *nth = 1; } }
    }
}

/// Files the build reads, as absolute paths.
pub fn files(case: &Case) -> Vec<String> {
    // Not the time-zone data: what a damaged zone means is not described.
    case.tree.iter().filter(|(p, n)| matches!(n.kind, NodeKind::File(_)) && !p.starts_with("/usr/") && !p.starts_with("/etc/")).map(|(p, _)| p.clone()).collect()
}

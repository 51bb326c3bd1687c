//! For each property: what to simulate and what must hold of it.
use crate::case::*;
use crate::cx::*;
use crate::exec::*;
use crate::gen::*;
use crate::setup::*;
use crate::util::*;
use std::collections::BTreeSet;

pub struct Prop {
    pub id: &'static str,
    pub make: fn(&mut Rng, &mut Case),
    pub check: fn(&mut Cx, &Case) -> V,
    pub rule: &'static str,
    /// Cases in the quick and in the thorough tier.
    pub quick: u64,
    pub thorough: u64,
    /// The contents of files depend on each other; do not shrink them apart.
    pub coupled: bool,
}

/* ------------------------------------------------------------------ C01 -- */

fn c01_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    f.loose = true;
    if r.chance(50) { f.err = 3; }
    let mut o = Opt::new(f);
    o.docs = 2; o.stdin = 15; o.big = 8; o.zone = 30; o.huge = 2;
    let run = world(c, r, &o);
    let paths = files(c);
    c.runs.push(run);
    for i in 0..3 {
        let mut v = Run::new(&format!("variant {}", i), &[]);
        if r.chance(70) { v.plain(format!("random {}", r.below(1 << 30))); }
        match i {
            0 => v.plain(format!("heap 1 {} {}", 0x41 + r.below(60), r.below(1 << 30))),
            _ => if r.chance(80) { v.plain(format!("heap {} {} {}", [0, 1, 2, 2, 3][r.below(5)], 0x21 + r.below(90), r.below(1 << 30))) },
        }
        if r.chance(60) { v.plain(format!("rdseed {}", 1 + r.below(1 << 30))); }
        if r.chance(20) { v.plain("dtunknown"); }
        if r.chance(50) { v.plain(format!("pid {}", 2 + r.below(4_000_000))); }
        if r.chance(60) {
            let p = if r.chance(60) || paths.is_empty() { "*".to_string() } else { r.pick(&paths).clone() };
            v.dirs.push(Dir::Chunk(p, (0..1 + r.below(4)).map(|_| 1 + r.below(40) as u32).collect()));
        }
        c.runs.push(v);
    }
}

fn c01_check(x: &mut Cx, c: &Case) -> V {
    let Some(base) = c.runs.first() else { return skip("empty") };
    let a = x.go(c, base)?;
    if a.flags & F_HEAP != 0 { return bad("heap", a.summary()); }
    if let Some(w) = a.crash() { x.st.hit("base run crashed"); return skip(&w); }
    for v in &c.runs[1..] {
        let b = x.go(c, &join(base, v))?;
        if b.flags & F_HEAP != 0 { return bad("heap", format!("heap damaged: {}\nplain: {}", b.summary(), a.summary())); }
        if let Some(d) = differs(&a, &b, true) {
            return bad(d, format!("{} differs\nplain:   {}\n{}: {}", d, a.summary(), v.label, b.summary()));
        }
    }
    if a.code() == 0 { x.st.hit("successful build"); } else { x.st.hit("failing build"); }
    Ok(a.allocs > 100 && a.out.len() + a.err.len() > 4)
}

/* ------------------------------------------------------------------ C02 -- */

fn plan(r: &mut Rng) -> Vec<u32> { (0..1 + r.below(5)).map(|_| *r.pick(&[1, 1, 2, 3, 5, 7, 31, 32, 33, 64, 1000, 4096])).collect() }

fn c02_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    f.unicode = true;
    if r.chance(30) { f.err = 3; }
    let mut o = Opt::new(f);
    o.big = 35; o.zone = 10; o.huge = 6;
    if r.chance(25) {
        // The library reading from a caller's stream.
        c.kind = "probe".into();
        let run = world(c, r, &Opt { target: o.target, ..o });
        let target = lossy(&run.args[0])[2..].to_string();
        let path = files(c).into_iter().find(|p| p.ends_with(".sex") && p.contains("/m0")).unwrap_or_default();
        let mut script: Vec<String> = plan(r).iter().map(|n| n.to_string()).collect();
        for _ in 0..r.below(4) { let i = r.below(script.len()); script.insert(i, "i".into()); }
        if r.chance(25) { let i = r.below(script.len()); script.insert(i, ["e", "r", "u", "o", "v", "x11", "x110", "x32", "x107", "x9"][r.below(10)].into()); c.set("fails", "1"); }
        if r.chance(12) { c.set("cut", r.next().to_string()); }
        c.set("script", script.join(","));
        c.set("target", target);
        c.set("source", path);
        c.runs.push(Run { args: vec![], ..run });
        return;
    }
    let run = world(c, r, &o);
    if r.chance(4) {
        // What other programs leave at either end of a text.
        if let Some(p) = files(c).into_iter().find(|p| p.ends_with("/m0.sex")) {
            if let NodeKind::File(d) = c.tree[&p].kind.clone() {
                let t = r.pick(&["\0", "\0\0\0", "\n\0", "\u{1a}", "\u{4}", "\u{c}", "\u{85}", "\u{a0}", "\u{2028}", "\u{feff}", "\\", "\u{fffd}", "\u{7f}"]).to_string();
                c.put(&p, if r.chance(80) { format!("{}{}", lossy(&d), t) } else { format!("{}{}", t, lossy(&d)) });
            }
        }
    }
    let huge = r.chance(4);
    if huge {
        if let Some(p) = files(c).into_iter().find(|p| p.ends_with("/m0.sex")) {
            if let NodeKind::File(d) = c.tree[&p].kind.clone() { let n = 60_000 + r.below(140_000); c.put(&p, fill(r, o.target.unwrap_or("text"), lossy(&d), n)); }
        }
    }
    let plan = |r: &mut Rng| if huge { (0..1 + r.below(5)).map(|_| *r.pick(&[97, 128, 1000, 4096, 8191, 65_537])).collect() } else { plan(r) };
    c.set("mode", ["same", "same", "same", "fault", "cut"][r.below(5)]);
    c.runs.push(run);
    for l in ["file", "stdin"] {
        let mut v = Run::new(l, &[]);
        v.dirs.push(Dir::Chunk("*".into(), plan(r)));
        for _ in 0..r.below(3) { v.fault("read", "*", 1 + r.below(12) as i64, 1 + r.below(4) as i64, 4); }
        if r.chance(20) { v.fault("open", "*", 1 + r.below(3) as i64, 1 + r.below(2) as i64, 4); }
        if r.chance(15) { v.plain(format!("heap {} 90 {}", r.below(4), r.below(1000))); }
        c.runs.push(v);
    }
    c.set("at", r.next().to_string());
}

/// Place where a source is damaged: inside a character, or a byte that starts none.
fn cut_utf8(data: &[u8], at: u64) -> Vec<u8> {
    let mut d = data.to_vec();
    let i = at as usize % (d.len() + 1);
    if at & (1 << 40) != 0 { d.truncate(i); d.extend("日".as_bytes()); d.pop(); }
    else { d.insert(i, [0x80, 0xff, 0xc0, 0xed][(at >> 41) as usize % 4]); }
    d
}

fn c02_check(x: &mut Cx, c: &Case) -> V {
    if c.kind == "probe" { return c02_probe(x, c); }
    if c.runs.len() < 3 { return skip("empty"); }
    let base = &c.runs[0];
    let Some(name) = base.args.iter().find(|a| !a.starts_with(b"-")).map(|a| lossy(a)) else { return skip("no source") };
    let abs = if name.starts_with('/') { norm_path(&name) } else { norm_path(&format!("{}/{}", c.cwd, name)) };
    let Some(NodeKind::File(data)) = c.tree.get(&abs).map(|n| n.kind.clone()) else { return skip("no source") };
    let mut file = join(base, &c.runs[1]);
    let mut pipe = join(base, &c.runs[2]);
    pipe.args.retain(|a| a.starts_with(b"-"));
    if data.len() % 2 == 0 { pipe.args.push(b"-".to_vec()); }
    pipe.stdin = data.clone();
    let at: u64 = c.param("at").parse().unwrap_or(0);
    match c.param("mode") {
        "cut" => {
            let d = cut_utf8(&data, at);
            file.overlay.push((abs.clone(), Some(VNode::file(d.clone()))));
            pipe.stdin = d;
            for r in [file, pipe] {
                let t = x.go(c, &r)?;
                failed_clean(&t, "source is not UTF-8")?;
            }
            x.st.hit("source not UTF-8");
            Ok(true)
        },
        "fault" => {
            let k = |r: &Run| r.dirs.iter().find_map(|d| match d { Dir::Chunk(_, v) => Some(*v.iter().max().unwrap_or(&1) as u64), _ => None }).unwrap_or(4096);
            // Early enough to be reached.
            let nth = |m: u64| 1 + (at % (data.len() as u64 / m + 1)) as i64;
            let n1 = nth(k(&file));
            file.fault("read", &abs, n1, -1, [5, 11, 116, 12, 110][at as usize / 7 % 5]);
            let n2 = nth(k(&pipe));
            pipe.fault("read", "<stdin>", n2, -1, [5, 21, 116, 11, 104, 110, 12][at as usize % 7]);
            for r in [file, pipe] {
                let t = x.go(c, &r)?;
                if !t.evs.iter().any(|e| matches!(e, Ev::Fault { op, errno, .. } if op == "read" && *errno != 4)) { x.st.hit("fault not reached"); continue; }
                failed_clean(&t, "reading failed midway")?;
                x.st.hit("read error midway");
            }
            Ok(true)
        },
        _ => {
            let a = x.go(c, base)?;
            let f = x.go(c, &file)?;
            let p = x.go(c, &pipe)?;
            if let Some(w) = a.crash() { return skip(&w); }
            if let Some(d) = differs(&a, &f, true) { return bad(d, format!("same file read in pieces\nat once:   {}\nin pieces: {}", a.summary(), f.summary())); }
            let mut q = p.clone();
            q.err = lossy(&p.err).replace("<stdin>", &name).into_bytes();
            if lossy(&data).contains("<stdin>") || lambda_named(&a.out) || lambda_named(&a.err) { q.err = a.err.clone(); q.out = a.out.clone(); }
            // Diagnostics may be laid out around the name; compare what they say.
            let words = |t: &Trace| t.stderr().split_whitespace().map(|s| s.to_string()).collect::<Vec<_>>();
            if let Some(d) = differs(&a, &q, false) { return bad(d, format!("from standard input\nfile:  {}\nstdin: {}", a.summary(), p.summary())); }
            if words(&a) != words(&q) { return bad("diagnostics", format!("from standard input\nfile:  {}\nstdin: {}", a.summary(), p.summary())); }
            if let Ok(o) = x.model(c, base) { x.exact(&a, &o)?; x.st.hit("compared with the model"); }
            if data.len() > 60_000 { x.st.hit("source over 60 KB"); } else if data.len() > 8192 { x.st.hit("source over 8 KiB"); }
            Ok(f.evs.iter().filter(|e| matches!(e, Ev::Read { path, n, .. } if *path == abs && *n > 0)).count() > 1)
        },
    }
}

/// Ended with a failure, a diagnostic and no document.
fn failed_clean(t: &Trace, why: &str) -> Result<(), Verdict> {
    if let Some(w) = t.crash() { return bad("crash", format!("{}: {}\n{}", why, w, t.summary())); }
    if t.code() == 0 { return bad("not reported", format!("{}, yet status 0\n{}", why, t.summary())); }
    if !t.out.is_empty() { return bad("partial", format!("{}, yet output\n{}", why, t.summary())); }
    if t.err.is_empty() { return bad("silent", format!("{}\n{}", why, t.summary())); }
    Ok(())
}

fn lines_of(t: &Trace) -> Vec<String> { lossy(&t.out).lines().map(|l| l.to_string()).collect() }

fn probe(x: &mut Cx, c: &Case, base: &Run, plan: &str) -> Result<(Trace, Vec<String>), Verdict> {
    let mut r = base.clone();
    r.overlay.push(("/plan".into(), Some(VNode::file(plan))));
    let t = x.go(c, &r)?;
    if let Some(w) = t.crash() { return bad("crash", format!("{}\n{}\nplan:\n{}", w, t.summary(), plan)); }
    let l = lines_of(&t).iter().map(|l| l.splitn(3, ' ').nth(2).unwrap_or("").to_string()).collect();
    Ok((t, l))
}

fn c02_probe(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let Some(NodeKind::File(mut data)) = c.tree.get(c.param("source")).map(|n| n.kind.clone()) else { return skip("no source") };
    let cut: Option<u64> = c.param("cut").parse().ok();
    if let Some(at) = cut { data = cut_utf8(&data, at); }
    let plan = format!("stream {} 1 {} {}\n", c.param("target"), c.param("script"), esc(&data));
    let (t, got) = probe(x, c, run, &plan)?;
    let got = got.first().cloned().unwrap_or_default();
    let failing = |s: &str| matches!(s, "e" | "r" | "u" | "o" | "v") || s.starts_with('x');
    let e = c.param("script").split(',').position(failing);
    // How much is delivered before the failure?
    let early: usize = e.map_or(usize::MAX, |e| c.param("script").split(',').take(e).filter_map(|s| s.parse::<usize>().ok()).sum());
    let last_fails = c.param("script").split(',').last().is_some_and(failing);
    if cut.is_some() || (e.is_some() && early < data.len()) || last_fails {
        if cut.is_none() && last_fails && early >= data.len() { return skip("failure after the end"); }
        if got != "io" { return bad("not reported", format!("stream failed, result {}\n{}", got, t.summary())); }
        x.st.hit("caller's stream failed");
        return Ok(true);
    }
    if e.is_some() { return skip("failure after the end"); }
    let (u, want) = probe(x, c, run, &format!("build {} 1 - {}\n", c.param("target"), esc(&data)))?;
    if want.first() != Some(&got) { return bad("stream", format!("at once: {:?}\nin pieces: {:?}\n{}\n{}", want, got, u.summary(), t.summary())); }
    if t.err != u.err { return bad("diagnostics", format!("{}\n{}", u.summary(), t.summary())); }
    Ok(data.len() > 10)
}

/* ------------------------------------------------------------------ C03 -- */

/// Whatever a system may say, other than that a call was interrupted, or that
/// there is no such stream (a closed standard input is an empty one).
fn any_errno(r: &mut Rng) -> i64 { loop { let e = 1 + r.below(133) as i64; if e != 4 && e != 9 && e != 41 && e != 58 { return e; } } }

fn c03_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    if r.chance(20) { f.err = 2; }
    let mut o = Opt::new(f);
    o.docs = 3; o.stdin = 20; o.zone = 10; o.big = 5; o.huge = 2;
    let mut run = world(c, r, &o);
    let Ok(mut m) = crate::model::build_all(c, &run) else { c.runs.push(run); return };
    if r.chance(12) {
        // What could be read once cannot be read again.
        let source = run.args.iter().find(|a| is_source(a)).map(|a| at_root(&lossy(a))).unwrap_or_default();
        if let Some(NodeKind::File(d)) = c.tree.get(&source).map(|n| n.kind.clone()) {
            let d = lossy(&d);
            c.put(&source, format!("{d}\n(%define mk (%embed \"/marker\"))\n{d}"));
            c.put("/marker", "m");
            if let Ok(n) = crate::model::build_all(c, &run) { m = n; }
            let used: Vec<String> = m.opened.iter().filter(|p| *p != "/marker" && !run.args.iter().any(|a| is_source(a) && at_root(&lossy(a)) == **p)).cloned().collect::<BTreeSet<_>>().into_iter().collect();
            if !used.is_empty() {
                let p = r.pick(&used).clone();
                let act = match r.below(3) { 0 => Act::Write(p, b"\xff".to_vec()), _ => Act::Del(p) };
                run.dirs.push(Dir::Mut { op: "open".into(), path: "/marker".into(), nth: 1, act });
                c.runs.push(run);
                return;
            }
        }
    }
    let mut targets: Vec<String> = m.opened.iter().cloned().collect::<BTreeSet<_>>().into_iter().filter(|p| !p.starts_with("/usr") && !p.starts_with("/etc")).collect();
    let dirs: Vec<String> = m.touched.iter().filter(|p| matches!(c.tree.get(*p).map(|n| &n.kind), Some(NodeKind::Dir)) || files(c).iter().any(|f| f.starts_with(&format!("{}/", p)))).filter(|p| p.len() > 3).cloned().collect();
    if !run.stdin.is_empty() && r.chance(30) { targets.push("<stdin>".into()); }
    for _ in 0..1 + r.below(2) {
        if !dirs.is_empty() && r.chance(if targets.is_empty() { 100 } else { 25 }) {
            let d = r.pick(&dirs).clone();
            if r.chance(50) { run.fault("opendir", &d, 1, -1, *r.pick(&[13, 5, 24, 23, 12, 1, 11, 40, 116])); }
            else { run.fault("readdir", &d, 1, -1, 5); }
            continue;
        }
        if targets.is_empty() { break; }
        let p = r.pick(&targets).clone();
        let len = match c.tree.get(&p).map(|n| &n.kind) { Some(NodeKind::File(d)) => d.len(), _ => run.stdin.len() };
        if p == "<stdin>" {
            if r.chance(30) { run.stdin = cut_utf8(&run.stdin.clone(), r.next()); }
            else { run.fault("read", &p, 1, -1, if r.chance(75) { *r.pick(&[5, 11, 21, 104, 110]) } else { any_errno(r) }); }
            continue;
        }
        match r.below(10) {
            0..=2 => run.fault("open", &p, 1, -1, if r.chance(75) { *r.pick(&[2, 13, 5, 24, 40, 20, 116, 1, 11, 16, 23, 36, 75, 110]) } else { any_errno(r) }),
            3..=5 => {
                let k = 1 + r.below(len.max(1)) as u32;
                if r.chance(70) { run.dirs.push(Dir::Chunk(p.clone(), vec![k])); }
                let most = if run.dirs.iter().any(|d| matches!(d, Dir::Chunk(q, _) if *q == p)) { len as i64 / k as i64 + 1 } else { 1 };
                let nth = r.range(1, most.max(1));
                run.fault("read", &p, nth, -1, *r.pick(&[5, 116, 21, 12, 11, 61, 110]));
            },
            6 => run.overlay.push((p.clone(), Some(if r.chance(70) { VNode::dir() } else { VNode { kind: NodeKind::Sock, ..VNode::dir() } }))),
            7 => run.overlay.push((p.clone(), Some(VNode::link("/nowhere/at/all")))),
            8 => { let d = match c.tree.get(&p).map(|n| &n.kind) { Some(NodeKind::File(d)) => d.clone(), _ => vec![] };
                run.overlay.push((p.clone(), Some(VNode::file(cut_utf8(&d, r.next()))))); },
            _ => run.overlay.push((p.clone(), None)),
        }
    }
    if r.chance(30) { run.plain(format!("heap {} 77 {}", r.below(4), r.below(1000))); }
    c.runs.push(run);
}

fn c03_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    if run.dirs.len() + run.overlay.len() == 0 { return skip("nothing to break"); }
    let o = x.model(c, run)?;
    let t = x.go(c, run)?;
    x.exact(&t, &o)?;
    if o.code != 0 { x.st.hit("failed because of unreadable input"); }
    if !o.docs.is_empty() && o.code != 0 { x.st.hit("failed after earlier documents"); }
    Ok(x.fired > 0 || !run.overlay.is_empty())
}

/* ------------------------------------------------------------------ C04 -- */

fn c04_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    if r.chance(10) { f.err = 2; }
    let mut o = Opt::new(f);
    o.docs = 3; o.stdin = 20; o.zone = 5; o.big = 50; o.huge = 6;
    let run = world(c, r, &o);
    c.runs.push(run);
    let mut v = Run::new("faults", &[]);
    let kind = r.below(10);
    if r.chance(60) || kind < 3 {
        v.dirs.push(Dir::WLimit(1, (0..1 + r.below(4)).map(|_| *r.pick(&[1, 2, 3, 7, 10, 100, 1000, 1024, 4096])).collect()));
    }
    if r.chance(40) { for _ in 0..1 + r.below(3) { v.fault("write", "<stdout>", 1 + r.below(8) as i64, 1 + r.below(3) as i64, 4); } }
    if kind >= 3 {
        let e = *r.pick(&[5, 28, 32, 11, 122, 27, 104, 110, 6, 12]);
        let nth = if r.chance(50) { 1 + r.below(3) } else { 1 + r.below(40) } as i64;
        v.fault("write", "<stdout>", nth, if r.chance(60) { -1 } else { 1 + r.below(2) as i64 }, e);
    }
    c.runs.push(v);
}

fn c04_check(x: &mut Cx, c: &Case) -> V {
    if c.runs.len() < 2 { return skip("empty"); }
    let base = &c.runs[0];
    let a = x.go(c, base)?;
    if let Some(w) = a.crash() { return skip(&w); }
    if let Ok(o) = x.model(c, base) { x.exact(&a, &o)?; }
    let v = join(base, &c.runs[1]);
    let t = x.go(c, &v)?;
    let note = || format!("without faults: {}\nwith faults:    {}", a.summary(), t.summary());
    if t.hang || matches!(t.end, End::Exit(93 | 94 | 98)) || t.flags & F_HEAP != 0 { return bad("crash", note()); }
    if !a.out.starts_with(&t.out) { return bad("not a prefix", note()); }
    let broken = t.evs.iter().any(|e| matches!(e, Ev::WriteErr { fd: 1, errno } if *errno != 4));
    if t.code() == 0 && t.out != a.out { return bad("lost output", note()); }
    if broken && t.code() == 0 { return bad("unreported", note()); }
    if !broken && (t.out != a.out || t.code() != a.code()) { return bad("not continued", note()); }
    if broken { x.st.hit("output could not be written"); }
    if broken && !t.out.is_empty() { x.st.hit("output failed midway"); }
    if a.out.len() > 8192 { x.st.hit("output over 8 KiB"); }
    Ok(broken || t.evs.iter().filter(|e| matches!(e, Ev::Write { fd: 1, .. })).count() > a.evs.iter().filter(|e| matches!(e, Ev::Write { fd: 1, .. })).count())
}

/* ------------------------------------------------------------------ C05 -- */

fn c05_make(r: &mut Rng, c: &mut Case) {
    let target = *r.pick(&["text", "sexp", "html", "xml"]);
    let mut run = Run::new("base", &[&format!("--{}", target)]);
    let spell = ["inc", "./inc2/", "/abs/inc", "inc/../inc3", "d with space", "inc", "--x", "a-b", "lnk", ".", "./", "inc//deep", "..", "né"];
    let mut dirs = vec![".".to_string()];
    for _ in 0..r.below(5) { let d = r.pick(&spell).to_string(); run.args.push(format!("-I{}", d).into_bytes()); dirs.push(d); }
    if r.chance(7) {
        // Other programs would see another directory in it, or several.
        let d = r.pick(&["inc:inc2", "inc3:/abs/inc", "inc,inc2", "inc;inc3", "~", "~/inc", "$HOME", "$HOME/inc", "inc*", "inc ", " inc", "@inc", "inc%20x", "file:inc", "=inc", "\"inc\"", "INC", "in?", "{inc,inc2}", "./inc2/.", "inc:"]).to_string();
        let i = r.below(run.args.len()) + 1;
        run.args.insert(i, format!("-I{}", d).into_bytes());
        // Mostly it is not there; the others are.
        if r.chance(30) { dirs.push(d); }
        for d in ["inc", "inc2", "inc3", "/abs/inc"] { if r.chance(50) { dirs.push(d.into()); } }
        if r.chance(50) { run.env.push((b"HOME".to_vec(), [&b"/w"[..], b"/w/inc", b"/abs/inc"][r.below(3)].to_vec())); }
    }
    if r.chance(4) {
        // Many of them.
        for i in 0..6 + r.below(30) { let d = format!("many/d{}", i % 29); run.args.push(format!("-I{}", d).into_bytes()); if i > 25 || r.chance(20) { dirs.push(d); } }
    }
    if r.chance(60) { for d in ["inc", "inc2", "inc3", "a-b", "--x", "d with space", "né"] { if r.chance(80) { c.tree.insert(format!("/w/{}", d), VNode::dir()); } } }
    c.tree.insert("/w/lnk".into(), VNode::link(["inc", "/abs/inc", "nowhere"][r.below(3)]));
    // As they are, from wherever.
    let rooted = r.chance(12);
    let names: Vec<String> = (0..1 + r.below(3)).map(|_| if rooted && r.chance(60) { r.pick(&["/abs/inc/x", "/x", "/w/inc/x", "/sub/x", "~/x", "~/sub/x", "$HOME/x", "/w/x.sex", "~x"]) } else { r.pick(&["x", "sub/x", "x.sex", "./x", "a b", "y.txt", "x.SEX", "sub/../x", "é", "-x", "sub"]) }.to_string()).collect();
    if rooted && r.chance(70) {
        run.env.push((b"HOME".to_vec(), [&b"/home/u"[..], b"/w/inc", b"/abs/inc", b"."][r.below(4)].to_vec()));
    }
    // Found files may name others, which are searched for just the same.
    let leaf = ["leaf", "./leaf", "sub/leaf", "../w/leaf", "leaf.sex"][r.below(5)].to_string();
    let nested = r.chance(35);
    c.set("leaf", if nested { leaf.as_str() } else { "" });
    let all: Vec<String> = names.iter().chain(if nested { Some(&leaf) } else { None }).cloned().collect();
    for n in &all {
        c.set("depth", if *n == leaf { "leaf" } else { "" });
        for d in &dirs {
            for ext in ["", ".sex"] {
                let dir = if d.starts_with('/') { d.clone() } else { format!("/w/{}", d) };
                if let Some(below) = n.strip_prefix('/') {
                    // Not there.
                    if r.chance(50) { state(r, c, &mut run, norm_path(&format!("{}/{}{}", dir, below, ext))); }
                    if r.chance(50) { state(r, c, &mut run, norm_path(&format!("{}{}", n, ext))); }
                    continue;
                }
                if let Some(below) = n.strip_prefix("~/").or(n.strip_prefix("$HOME/")) {
                    for h in ["/home/u", "/w/inc", "/abs/inc", "/w"] { if r.chance(50) { state(r, c, &mut run, norm_path(&format!("{}/{}{}", h, below, ext))); } }
                }
                let p = norm_path(&format!("{}/{}{}", dir, n, ext));
                if p.split('/').any(|s| s == "..") || p.starts_with("/w/lnk/") {
                    // Only reachable through another spelling.
                    let w = crate::model::world::World::new(c, &run);
                    let dir = p.rsplit_once('/').unwrap_or(("", "")).0.to_string();
                    let Ok(d2) = w.resolve(&dir) else { continue };
                    let q = format!("{}/{}", d2, p.rsplit('/').next().unwrap_or(""));
                    state(r, c, &mut run, q);
                    continue;
                }
                state(r, c, &mut run, p);
            }
        }
    }
    if nested {
        // Not beside the file that names them.
        let beside: Vec<String> = files(c).into_iter().filter_map(|p| p.rsplit_once('/').map(|d| d.0.to_string())).collect();
        for d in beside { if r.chance(70) { for l in ["leaf", "sub/leaf", "leaf.sex"] { if r.chance(50) { c.set("depth", "leaf"); state(r, c, &mut run, norm_path(&format!("{}/{}", d, l))); } } } }
    }
    c.params.remove("depth");
    c.params.remove("leaf");
    let mut doc = String::new();
    for n in &names {
        for _ in 0..1 + r.below(2) {
            doc += &format!("(%{} \"{}\")\n", if r.chance(65) { "include" } else { "embed" }, n);
        }
    }
    if r.chance(20) { doc = format!("(%define (f p) (%include %p))\n{}(%f \"{}\")", doc, names[0]); }
    c.put("/w/main.sex", doc);
    if r.chance(25) { c.set("library", target); if r.chance(50) { c.set("split", r.below(4).to_string()); } }
    if r.chance(8) {
        // Some of them only turn up while the build is running.
        let late: Vec<String> = files(c).into_iter().filter(|p| p != "/w/main.sex" && !run.dirs.iter().any(|d| matches!(d, Dir::Fault { path, .. } if path == p))).collect();
        let mut doc = c.tree.get("/w/main.sex").map(|n| match &n.kind { NodeKind::File(d) => lossy(d), _ => String::new() }).unwrap_or_default();
        doc = format!("(%embed \"/marker\")\n{}", doc);
        c.put("/w/main.sex", doc);
        c.put("/marker", "m");
        for p in late {
            if !r.chance(40) { continue; }
            let Some(NodeKind::File(d)) = c.tree.remove(&p).map(|n| n.kind) else { continue };
            // Directories that are there because of it.
            run.dirs.push(Dir::Mut { op: "open".into(), path: "/marker".into(), nth: 1, act: Act::Set(p.clone(), d) });
        }
        for d in ["inc", "inc2", "inc3", "a-b", "--x", "d with space", "né"] {
            let d = format!("/w/{}", d);
            if r.chance(60) && !c.tree.keys().any(|k| k.starts_with(&format!("{}/", d))) { c.tree.remove(&d); }
        }
    }
    run.args.push(b"main.sex".to_vec());
    if r.chance(25) { run.dirs.push(Dir::Chunk("*".into(), plan(r))); }
    if r.chance(15) { run.fault("open", "*", 1 + r.below(5) as i64, 1, 4); }
    c.runs.push(run);
}

/// Include directories, given in one call or in several.
fn split_incs(incs: &[String], c: &Case) -> String {
    let mut v = incs.to_vec();
    if let Ok(at) = c.param("split").parse::<usize>() { v.insert(at.min(v.len()), "+".into()); v.insert(1.min(v.len()), "+".into()); }
    v.join(" ")
}

/// One candidate for an include.
fn state(r: &mut Rng, c: &mut Case, run: &mut Run, p: String) {
    if c.tree.contains_key(&p) || p == "/w/main.sex" || p.is_empty() { return; }
    // A file cannot stand where a directory is needed.
    if c.tree.keys().any(|k| k.starts_with(&format!("{}/", p))) { return; }
    let mut q = p.as_str();
    while let Some((d, _)) = q.rsplit_once('/') {
        if matches!(c.tree.get(d).map(|n| &n.kind), Some(NodeKind::File(_) | NodeKind::Link(_))) { return; }
        q = d;
    }
    let id = c.tree.len();
    match r.below(13) {
        0..=3 => {},
        // With nothing in it.
        12 => c.put(&p, *r.pick(&["", "", "", " ", "\n"])),
        4 => { c.tree.insert(p, if r.chance(75) { VNode::dir() } else { VNode { kind: NodeKind::Sock, ..VNode::dir() } }); },
        5 => { c.tree.insert(p, VNode::link("nowhere")); },
        6 => { c.put(&p, format!("no{}", id)); run.fault("open", &p, 1, -1, *r.pick(&[13, 5, 24, 40])); },
        7 => { c.put(&p, format!("no{}", id)); run.fault("read", &p, 1, -1, 5); },
        8 => c.put(&p, format!("no{}\u{e9}", id).into_bytes()[..5.min(format!("no{}\u{e9}", id).len() - 1)].to_vec()),
        9 => { let t = format!("/store/t{}", id); c.put(&t, format!("via{}", id)); c.tree.insert(p, VNode::link(&t)); },
        _ if !c.param("leaf").is_empty() && c.param("depth").is_empty() && r.chance(60) => {
            let leaf = c.param("leaf").to_string();
            c.put(&p, match r.below(3) { 0 => format!("file{}(%embed \"{}\")", id, leaf), 1 => format!("(%define (g) (%include \"{}\"))(%g) file{}", leaf, id), _ => format!("file{}(%include \"{}\")", id, leaf) });
        },
        _ => c.put(&p, format!("file{}", id)),
    }
}

fn c05_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let o = x.model(c, run)?;
    if !c.param("library").is_empty() {
        let incs: Vec<String> = run.args.iter().filter_map(|a| a.strip_prefix(b"-I").map(esc)).collect();
        if run.args.iter().any(|a| a.starts_with(b"--nodoc")) { return skip("shape"); }
        let Some(NodeKind::File(d)) = c.tree.get("/w/main.sex").map(|n| n.kind.clone()) else { return skip("no source") };
        let mut p = c.clone();
        p.kind = "probe".into();
        let mut r = run.clone();
        r.args.clear();
        let (t, l) = probe(x, &p, &r, &format!("build {} 1 =main.sex {} {}\n", c.param("library"), esc(&d), split_incs(&incs, c)).replace(" \n", "\n"))?;
        let got = l.first().cloned().unwrap_or_default();
        let want = if o.code == 0 { format!("ok {}", esc(&o.out[..o.out.len() - 1])) } else { "err".into() };
        if got != want && !(o.code != 0 && got.starts_with("err ")) { return bad("library", format!("expected {}\ngot {}\n{}", want, got, t.summary())); }
        x.st.hit("library call");
        return Ok(true);
    }
    let t = x.go(c, run)?;
    x.exact(&t, &o)?;
    let w = crate::model::world::World::new(c, run);
    let file = |p: &String| matches!(w.tree.get(p).map(|n| &n.kind), Some(NodeKind::File(_)));
    let opened: Vec<String> = t.evs.iter().filter_map(|e| match e { Ev::Open { canon, ret, .. } if *ret >= 0 => Some(canon.clone()), _ => None }).filter(file).collect();
    let want: Vec<String> = o.opened.iter().filter(|p| file(p)).cloned().collect();
    if opened != want { return bad("search order", format!("expected to open {:?}\nopened {:?}\n{}", want, opened, t.summary())); }
    for e in &t.evs {
        if let Ev::Open { canon, path, .. } = e {
            if !o.touched.contains(canon) && !o.touched.contains(&norm_path(&w.absolute(path))) {
                return bad("stray candidate", format!("tried {:?} ({:?})\n{}", path, canon, t.summary()));
            }
        }
    }
    looked_for(x, c, run, &t, &o.touched)?;
    if o.code == 0 { x.st.hit("found"); } else { x.st.hit("no candidate readable"); }
    Ok(o.opened.len() > 1 || x.fired > 0)
}

/* ------------------------------------------------------------------ C06 -- */

fn c06_make(r: &mut Rng, c: &mut Case) {
    let f = Feats { clock: false, pre: false, ..Feats::all() };
    match r.below(10) {
        0..=4 => {
            // Twins: the same document with the text in place of the includes.
            let mut o = Opt::new(Feats { heavy: true, ..f });
            o.zone = 10;
            c.set("mode", "twin");
            let run = world(c, r, &o);
            c.runs.push(run);
        },
        5 if r.chance(6) => {
            // One in another, and another.
            c.set("mode", "replace");
            let target = *r.pick(&["text", "sexp", "html", "xml"]);
            let mut run = Run::new("base", &[&format!("--{}", target)]);
            let most = if r.chance(50) { 12 } else { 70 };
            let n = 2 + r.below(most);
            let again = r.below(n);
            for i in 0..n {
                let inner = if i + 1 == n { "(%define deep found) bottom".to_string() } else { format!("(%include \"c{}\")", i + 1) };
                let t = match r.below(6) {
                    0 => format!("(q {} {})", i, inner),
                    1 => format!("(%define v{} {}) {}", i, i, inner),
                    2 => format!("(%for x in (a) %x {})", inner),
                    3 if n < 12 && i == again => format!("{} {}", inner, inner),
                    4 => format!("; a comment\n{}\n", inner),
                    _ => inner,
                };
                c.put(&format!("/w/c{}", i), t);
            }
            c.put("/w/m.sex", "(%include c0)\n(%ifdef deep %deep none) (%ifdef v1 %v1 none)\n");
            run.args.push(b"m.sex".to_vec());
            c.runs.push(run);
        },
        5..=7 => {
            c.set("mode", "replace");
            let target = *r.pick(&["text", "sexp", "html", "xml"]);
            let mut run = Run::new("base", &[&format!("--{}", target)]);
            let text = |r: &mut Rng, i: usize| match r.below(5) {
                0 => format!("(%define v version{})", i),
                1 => format!("(p one{} two)", i),
                2 => String::new(),
                3 => format!("(%include \"z\") w{}", i),
                _ => format!("version{}", i),
            };
            c.put("/w/x", text(r, 0));
            c.put("/w/z.sex", "zed");
            for k in ["mk1", "mk2"] { c.put(&format!("/w/{}", k), ""); }
            let inc = ["(%include \"x\")", "(%include x)", "(%embed \"x\")"][r.below(3)];
            let mk = |k: u32| format!("(%embed \"mk{}\")", k);
            let use_v = "(%ifdef v (%string \"v=\" %v) none)";
            let doc = match r.below(7) {
                0 => format!("{inc} {} {inc} {} {inc}", mk(1), mk(2)),
                1 => format!("(%for i in (1 2 3) (b %i {inc} {}))", mk(1)),
                2 => format!("(%define (m) {inc})\n(%m) {} (%m) {}", mk(1), mk(2)),
                3 => format!("{inc}\n{use_v} {}\n{inc}\n{use_v} (%namespace n {inc}) {} (%namespace k {inc})", mk(1), mk(2)),
                4 => format!("(%match 1 (1 {inc} {} {inc}))", mk(1)),
                5 => format!("(%include \"w\") {} (%include \"w\")", mk(1)),
                _ => format!("(%define a {inc}) {} (%define b {inc}) (q %a %b)", mk(1)),
            };
            c.put("/w/w", format!("(p {inc} {} {inc})", mk(2)));
            c.put("/w/m.sex", doc);
            for k in 1..3 {
                if r.chance(85) {
                    let t = text(r, k);
                    let target = if r.chance(15) { "/w/z.sex" } else { "/w/x" };
                    let nth = 1 + r.below(2) as i64;
                    let act = match r.below(8) { 0 => Act::Del(target.into()), 1..=3 => Act::Write(target.into(), t.into_bytes()), _ => Act::Set(target.into(), t.into_bytes()) };
                    run.dirs.push(Dir::Mut { op: "open".into(), path: format!("/w/mk{}", k), nth, act });
                }
            }
            run.args.push(b"m.sex".to_vec());
            if r.chance(35) {
                // Another document, once more from what is there by then.
                if r.chance(50) { run.args.push(b"m.sex".to_vec()); }
                else { c.put("/w/m2.sex", format!("{inc} two {inc}")); let at = run.args.len() - r.below(2); run.args.insert(at, b"m2.sex".to_vec()); }
            }
            harmless(r, &mut run, &["/w/x".into()]);
            c.runs.push(run);
        },
        _ => {
            // Embeds byte for byte.
            c.set("mode", "bytes");
            let target = if r.chance(80) { "text" } else { "xml" };
            let mut run = Run::new("base", &[&format!("--{}", target)]);
            let n = [0, 1, 31, 32, 33, 100, 4095, 8192, 8193, if r.chance(10) { [270_000, 1_100_000][r.below(2)] } else { 70_000 }][r.below(10)];
            let mut s = String::new();
            while s.len() < n {
                s.push_str(["\r\n", "\u{feff}", "\0", "\t", "é", "日", "😀", "\\", "\"", "(%x)", ";", "\n", "a", " ", "\u{2028}", "lorem ipsum "][r.below(16)]);
            }
            c.put("/w/blob", s);
            c.put("/w/m.sex", ["(%embed \"blob\")", "(p (%embed \"blob\") x)", "(%raw (%embed \"blob\"))", "(%concat (%embed blob) (%embed \"blob\"))", "(%define b (%embed \"blob\")) %b %b", "a (%strip (%embed \"blob\"))"][r.below(6)]);
            run.args.push(b"m.sex".to_vec());
            harmless(r, &mut run, &["/w/blob".into()]);
            c.runs.push(run);
        },
    }
}

/// Every `(%include …)` the generator can write, with the file it names.
fn include_forms(c: &Case, run: &Run) -> Vec<(String, String)> {
    let mut dirs = vec![".".to_string()];
    dirs.extend(run.args.iter().filter_map(|a| a.strip_prefix(b"-I").map(lossy)));
    let w = crate::model::world::World::new(c, run);
    let mut out = vec![];
    for (_, n) in &c.tree {
        let NodeKind::File(d) = &n.kind else { continue };
        let t = lossy(d);
        for (i, _) in t.match_indices("(%include ") {
            let Some(form) = balanced(&t[i..]) else { continue };
            let arg = &form["(%include ".len()..form.len() - 1];
            let name: String = if let Some(a) = arg.strip_prefix("(%concat ") {
                a.trim_end_matches(')').split('"').skip(1).step_by(2).collect()
            } else { arg.trim_matches('"').to_string() };
            let mut hit = None;
            'find: for d in &dirs {
                for e in ["", ".sex"] {
                    if let Ok(p) = w.resolve(&format!("{}/{}{}", d, name, e)) {
                        if let Some(NodeKind::File(_)) = c.tree.get(&p).map(|n| &n.kind) { hit = Some(p); break 'find; }
                    }
                }
            }
            if let Some(p) = hit { out.push((form.to_string(), p)); }
        }
    }
    out
}

/// The list starting here, strings respected.
pub fn balanced(t: &str) -> Option<&str> {
    let b = t.as_bytes();
    let (mut depth, mut i) = (0i32, 0);
    while i < b.len() {
        match b[i] {
            b'"' => {
                let q = if t[i..].starts_with("\"\"\"") { "\"\"\"" } else { "\"" };
                i += q.len();
                while i < b.len() && !t.get(i..).map_or(false, |r| r.starts_with(q)) {
                    if b[i] == b'\\' { i += 1; }
                    i += 1;
                }
                i += q.len();
                continue;
            },
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1; } },
            b'(' => depth += 1,
            b')' => { depth -= 1; if depth == 0 { return Some(&t[..i + 1]); } },
            _ => {},
        }
        i += 1;
    }
    None
}

/// May stand in place of its include without shifting blanks.
fn inlinable(t: &str) -> bool {
    if t.is_empty() || t.starts_with(char::is_whitespace) || t.starts_with(';') || t.ends_with(char::is_whitespace) { return false; }
    if t.rsplit('\n').next().map_or(false, |l| l.contains(';')) { return false; }
    // Whether blanks shift is for the model to say.
    true
}

fn all_definitions(t: &str) -> bool {
    let mut rest = t.trim();
    while !rest.is_empty() {
        if rest.starts_with(';') { rest = rest.split_once('\n').map_or("", |x| x.1).trim_start(); continue; }
        if !["(%define ", "(%log ", "(%namespace "].iter().any(|p| rest.starts_with(p)) { return false; }
        let Some(f) = balanced(rest) else { return false };
        rest = rest[f.len()..].trim_start();
    }
    true
}

fn c06_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let o = x.model(c, run)?;
    let t = x.go(c, run)?;
    x.exact(&t, &o)?;
    looked_for(x, c, run, &t, &o.touched)?;
    if c.param("mode") != "twin" {
        x.st.hit(c.param("mode"));
        return Ok(o.opened.len() > 1);
    }
    let forms = include_forms(c, run);
    let mut twin = c.clone();
    let Some(main) = run.args.iter().find(|a| !a.starts_with(b"-")).map(|a| lossy(a)) else { return skip("no source") };
    let abs = if main.starts_with('/') { norm_path(&main) } else { norm_path(&format!("{}/{}", c.cwd, main)) };
    let Some(NodeKind::File(d)) = c.tree.get(&abs).map(|n| n.kind.clone()) else { return skip("no source") };
    let mut text = lossy(&d);
    let mut n = 0;
    for _ in 0..6 {
        let before = text.clone();
        for (form, path) in &forms {
            if !text.contains(form.as_str()) { continue; }
            let Some(NodeKind::File(d)) = c.tree.get(path).map(|n| &n.kind) else { continue };
            let body = lossy(d);
            let body = if all_definitions(&body) { body.trim_end().to_string() } else { body.trim_end_matches('\n').to_string() };
            if !inlinable(&body) { continue; }
            if text.len() > 30_000 { break; }
            n += text.matches(form.as_str()).count();
            text = text.replace(form.as_str(), &body);
        }
        if before == text { break; }
    }
    x.st.hit(if o.code == 0 { "twin: builds" } else { "twin: fails" });
    if n == 0 { x.st.hit("twin: nothing to write out"); return Ok(false); }
    twin.put(&abs, text.clone());
    // Where the text in place would mean something else (a form cut out of a
    // string, say), the two are not twins.
    match crate::model::build_all(&twin, run) {
        Err(s) => return skip(&format!("model: {}", s)),
        Ok(m) if m.code != o.code || m.out != o.out => { x.st.hit("not a twin"); return Ok(false) },
        Ok(_) => {},
    }
    let b = x.go(&twin, run)?;
    let note = || format!("with includes: {}\nwritten out ({:?}): {}", t.summary(), text, b.summary());
    if t.code() != b.code() { return bad("twin status", note()); }
    if t.out != b.out { return bad("twin output", note()); }
    let logs = |t: &Trace| -> Vec<String> { t.stderr().split("msg").skip(1).map(|s| s.chars().take_while(|c| c.is_ascii_digit()).collect()).collect() };
    if t.code() == 0 && logs(&t) != logs(&b) { return bad("twin log", note()); }
    x.st.hit("twin compared");
    if n > 1 { x.st.hit("several includes written out"); }
    Ok(true)
}

/* ------------------------------------------------------------------ C07 -- */

fn damage(r: &mut Rng, d: &[u8]) -> Vec<u8> {
    let mut v = d.to_vec();
    let n = v.len();
    if n == 0 { return vec![*r.pick(&[b'(', b'"', b'\\', 0, 0xff, b')'])]; }
    let block = |r: &mut Rng| { let s = [1usize, 2, 4, 8, 16, 64, 512][r.below(7)].min(n); let a = (r.below(n) / s) * s; (a, (a + s).min(n)) };
    for _ in 0..1 + r.below(2) {
        if v.is_empty() { break; }
        match r.below(9) {
            0 | 1 => { let k = r.below(v.len() + 1); v.truncate(k); },
            2 => { let i = r.below(v.len()); v[i] ^= 1 << r.below(8); },
            3 => { let i = r.below(v.len()); v[i] = *r.pick(&[b'(', b')', b'"', b'\\', b';', b'%', b':', b'&', b' ', b'\n', 0, 0x7f, 0xff, b'\'', b'{']); },
            4 => { let (a, b) = block(r); if b <= v.len() { v.drain(a..b); } },
            5 => { let (a, b) = block(r); if b <= v.len() { let x = v[a..b].to_vec(); let at = b; v.splice(at..at, x); } },
            6 => { let (a, b) = block(r); let z = *r.pick(&[0u8, 0xff, b' ']); for i in a..b.min(v.len()) { v[i] = z; } },
            7 => { let (a, b) = block(r); let (p, q) = block(r); if b <= v.len() && q <= v.len() { let x = v[a..b].to_vec(); let y = v[p..q].len().min(x.len()); v[p..p + y].copy_from_slice(&x[..y]); } },
            _ => { let i = r.below(v.len() + 1); v.insert(i, *r.pick(&[b'(', b')', b'"', b'\\', b';', b'%', b':', b'&'])); },
        }
    }
    v
}

/// Cut where something has just begun.
fn cut_at_token(r: &mut Rng, d: &[u8]) -> Option<Vec<u8>> {
    let t: &[u8] = *r.pick(&[&b"\\"[..], b" :", b"\"", b"(", b"(%", b"\"\"\"", b";", b"%", b")", b" ", b"\\u", b"\\u{", b"&", b"\n"]);
    let at: Vec<usize> = (0..d.len()).filter(|i| d[*i..].starts_with(t)).collect();
    if at.is_empty() { return None; }
    let mut n = *r.pick(&at) + t.len();
    if t == b" :" { while n < d.len() && d[n].is_ascii_alphanumeric() { n += 1; } }
    let mut v = d[..n].to_vec();
    if r.chance(30) { v.extend(r.pick(&[&b"\n"[..], b" ", b"\\", b":", b":k", b"%", b"\"", b"&", b")", b"\\u{110000}", b"\\u{d800}", b"\\u{}", b"\r", b"\0"]).iter()); }
    Some(v)
}

fn c07_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    if r.chance(25) { f.err = 5; }
    f.deep = 6;
    let mut o = Opt::new(f);
    o.docs = 2; o.stdin = 15; o.zone = 10; o.big = 3; o.huge = 1;
    let mut run = world(c, r, &o);
    let mut t: Vec<String> = files(c).into_iter().filter(|p| !p.contains("/g") || p.ends_with(".sex")).collect();
    if t.is_empty() || (!run.stdin.is_empty() && r.chance(40)) { run.stdin = damage(r, &run.stdin.clone()); }
    else {
        // Sources matter most.
        if r.chance(50) { t.retain(|p| p.contains("/m")); }
        if t.is_empty() { t = files(c); }
        let p = r.pick(&t).clone();
        let NodeKind::File(d) = c.tree[&p].kind.clone() else { unreachable!() };
        // At rest, or torn while the build runs.
        let v = if r.chance(25) { cut_at_token(r, &d).unwrap_or_default() } else { damage(r, &d) };
        if r.chance(85) { c.put(&p, v); } else {
            run.dirs.push(Dir::Mut { op: "open".into(), path: p.clone(), nth: 1, act: Act::Write(p, v) });
        }
    }
    if r.chance(50) { run.plain(format!("heap {} {} {}", r.below(4), 0x41 + r.below(60), r.below(1000))); }
    c.runs.push(run);
}

/// The source being built when the run ended was not even text.
fn raw_source(c: &Case, run: &Run, done: usize) -> bool {
    let mut v: Vec<Vec<u8>> = vec![];
    let names: Vec<&Vec<u8>> = run.args.iter().filter(|a| !a.starts_with(b"-")).collect();
    if run.args.iter().any(|a| a == b"-") || names.is_empty() { v.push(run.stdin.clone()); }
    for n in names {
        let n = lossy(n);
        let abs = if n.starts_with('/') { norm_path(&n) } else { norm_path(&format!("{}/{}", c.cwd, n)) };
        match c.tree_of(run).get(&abs).map(|n| n.kind.clone()) { Some(NodeKind::File(d)) => v.push(d), _ => return true }
    }
    let torn = run.dirs.iter().any(|d| matches!(d, Dir::Mut { .. }));
    torn || v.iter().skip(done).take(1).any(|d| std::str::from_utf8(d).is_err())
}

fn c07_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let torn = run.dirs.iter().any(|d| matches!(d, Dir::Mut { .. }));
    let o = if torn { Err("torn while read".to_string()) } else { crate::model::build_all(c, run) };
    let t = x.go(c, run)?;
    if let Some(w) = t.crash() {
        if let Err(s) = &o {
            if s == "depth" || s == "steps" || t.stderr().contains("overflowed its stack") { return skip("recursion"); }
        }
        let tail = lossy(&t.err);
        let class = match t.stderr().lines().find(|l| l.contains("panicked at")) { Some(l) => format!("crash {}", l.split("panicked at ").nth(1).unwrap_or("").rsplit('/').next().unwrap_or("").split(':').take(2).collect::<Vec<_>>().join(":")), None => "crash".into() };
        return bad(&class, format!("{}\n{}\n{}", w, tail, t.summary()));
    }
    match t.code() {
        0 => if !t.out.ends_with(b"\n") { return bad("partial", t.summary()); },
        1 => {
            if t.err.is_empty() { return bad("silent", t.summary()); }
            // Documents before it may be there, complete.
            if !t.out.is_empty() && !t.out.ends_with(b"\n") { return bad("partial", t.summary()); }
            let done = o.as_ref().map(|o| o.docs.len()).unwrap_or(0);
            if !raw_source(c, run, done) && o.is_ok() && locations(&t.stderr()).is_empty() { return bad("unlocated", t.summary()); }
        },
        n => return bad("status", format!("status {}\n{}", n, t.summary())),
    }
    match &o {
        Ok(o) => {
            x.st.modelled += 1;
            x.exact(&t, o)?;
            if o.code == 0 { x.st.hit("damage tolerated"); } else { x.st.hit("damage reported"); }
        },
        Err(s) => x.st.hit(&format!("not modelled: {}", s)),
    }
    Ok(true)
}

/* ------------------------------------------------------------------ C08 -- */

fn c08_make(r: &mut Rng, c: &mut Case) {
    c.kind = "probe".into();
    let f = Feats { glob: false, env: false, ..Feats::all() };
    let mut o = Opt::new(f);
    o.big = 5; o.target = Some(*r.pick(&TARGETS));
    if r.chance(10) { o.feats.err = 2; }
    let mut run = world(c, r, &o);
    for _ in 0..8 {
        // Something that can be generated.
        let dirs = run.args.iter().any(|a| a.starts_with(b"-I"));
        match crate::model::build_all(c, &run) { Ok(m) if m.code != 0 => {}, _ if dirs => {}, _ => break }
        *c = Case::new("C08", c.seed, c.index);
        c.kind = "probe".into();
        run = world(c, r, &o);
    }
    c.set("target", o.target.unwrap());
    c.set("mode", r.below(8).to_string());
    c.set("limit", "60");
    let p = files(c).into_iter().find(|p| p.contains("/m0.sex")).unwrap_or_default();
    c.set("source", p);
    c.runs.push(Run { args: vec![], dirs: run.dirs, env: run.env, ..Run::new("base", &[]) });
}

fn c08_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let Some(NodeKind::File(d)) = c.tree.get(c.param("source")).map(|n| n.kind.clone()) else { return skip("no source") };
    let (t, l) = probe(x, c, run, &format!("sink {} {} {} {}\n", c.param("target"), c.param("mode"), c.param("limit"), esc(&d)))?;
    let l = l.first().cloned().unwrap_or_default();
    if l == "err" { return skip("build fails"); }
    if !l.starts_with("full ") { return bad("crash", format!("{}\n{}", l, t.summary())); }
    let mut parts = l.split(" ; ");
    let head: Vec<&str> = parts.next().unwrap_or("").split(' ').collect();
    let full = unesc(head.get(3).unwrap_or(&"=")).unwrap_or_default();
    let mut n = 0;
    for p in parts {
        let w: Vec<&str> = p.split(' ').collect();
        let [k, res, after, same, got] = w[..] else { return bad("crash", format!("{}\n{}", p, t.summary())) };
        let got = unesc(got).unwrap_or_default();
        let note = || format!("piece {} of {} refused: result {}, {} pieces written afterwards, accepted {:?} of {:?}", k, head[2], res, after, lossy(&got), lossy(&full));
        match res {
            "err" => {},
            "panic" => return bad("panic", note()),
            _ => return bad("ignored", note()),
        }
        if after != "0" { return bad("went on", note()); }
        if !full.starts_with(&got) { return bad("not a prefix", note()); }
        if same != "1" { return bad("spoiled", note()); }
        n += 1;
    }
    x.st.fault("sink refused a piece", n);
    x.digests.push(fnv(l.as_bytes()));
    Ok(n > 1)
}

/* ------------------------------------------------------------------ C09 -- */

/// A document with a name in common with another.
fn related(r: &mut Rng, d: &[u8], css: bool) -> Vec<u8> {
    let s = lossy(d);
    let names: Vec<&str> = s.match_indices("(%define ").filter_map(|(i, m)| {
        let t = s[i + m.len()..].trim_start_matches('(');
        let n = &t[..t.find(|c: char| c.is_whitespace() || c == ')' || c == '(').unwrap_or(t.len())];
        if n.is_empty() || n.contains(['"', ';', '%']) { None } else { Some(n) }
    }).collect();
    let pick = |r: &mut Rng| if names.is_empty() { "v1".to_string() } else { r.pick(&names).to_string() };
    let n = pick(r);
    let (yes, no) = if css { ("(p :a yes)", "(p :a no)") } else { ("yes", "no") };
    match r.below(7) {
        0 => format!("{}\n(%nonesuch)", s),
        1 | 2 => names.iter().chain(["v1", "m1", "nonesuch"].iter()).map(|n| format!("(%ifdef {} {} {})\n", n, yes, no)).collect(),
        3 => format!("%{}", n),
        4 => format!("(%{} a)", n),
        5 => ["alpha", "beta", "x", "1", "p", "\n"].iter().fold(s.clone(), |s, w| if s.contains(w) && s.len() % 2 == 0 { s.replacen(w, "zz", 1) } else { s }),
        _ => format!("(%define {} other) {}", n, s),
    }.into_bytes()
}

fn c09_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    f.loose = true;
    if r.chance(40) { f.err = 3; }
    let mut o = Opt::new(f);
    o.docs = 4; o.stdin = 0; o.zone = 10; o.big = 5;
    let mut run = world(c, r, &o);
    if r.chance(25) {
        // Files hard to tell apart, of one length and with the same beginning, for every source.
        let pre = ["", "same same ", "x y z (it) ", "a long beginning that is the same everywhere, and more "][r.below(4)];
        for i in 0..4 { c.put(&format!("/w/like{}", i), format!("{}{}{}", pre, ["alpha", "gamma", "delta", "omega"][i], ["", " end"][r.below(2)])); }
        let css = run.args[0] == b"--css";
        for p in files(c) {
            let NodeKind::File(d) = c.tree[&p].kind.clone() else { continue };
            if !p.rsplit('/').next().unwrap_or("").starts_with('m') || !p.ends_with(".sex") { continue; }
            let mut s = lossy(&d);
            for _ in 0..1 + r.below(2) {
                let n = r.below(4);
                s += &match r.below(4) { 0 if !css => format!("\n(%include like{n})"), 1 if !css => format!("\n(%for i in (1 2) (%embed \"like{n}\"))"), _ if css => format!("\n(p :a (%embed like{n}))"), _ => format!("\n(p (%embed like{n}))") };
            }
            c.put(&p, s);
        }
    }
    if r.chance(50) {
        // Order and repetition of sources on the command line.
        let mut names: Vec<Vec<u8>> = run.args.iter().filter(|a| !a.starts_with(b"-")).cloned().collect();
        run.args.retain(|a| a.starts_with(b"-"));
        r.shuffle(&mut names);
        if r.chance(50) { let n = r.pick(&names).clone(); let i = r.below(names.len() + 1); names.insert(i, n); }
        run.args.extend(names);
        if r.chance(40) { run.plain(format!("heap {} 66 {}", r.below(4), r.below(1000))); }
        c.runs.push(run);
        return;
    }
    // One process, several builds, several threads.
    c.kind = "probe".into();
    let mut lines = vec![];
    let srcs: Vec<String> = files(c).into_iter().filter(|p| p.contains("/m") && p.ends_with(".sex")).collect();
    let mut incs: Vec<String> = run.args.iter().filter_map(|a| a.strip_prefix(b"-I").map(lossy)).collect();
    if r.chance(50) {
        // The same names elsewhere, with something else in them.
        for d in ["inc", "./lib/", "/abs/x", "in c"] { if r.chance(50) && !incs.iter().any(|i| i == d) { incs.push(d.into()); } }
        let named: Vec<(String, String)> = files(c).into_iter().filter_map(|p| { let n = p.rsplit('/').next().unwrap().to_string(); if n.starts_with('f') { Some((p, n)) } else { None } }).collect();
        for (p, n) in named {
            for d in incs.clone() {
                let abs = if d.starts_with('/') { norm_path(&format!("{}/{}", d, n)) } else { norm_path(&format!("/w/{}/{}", d, n)) };
                if abs != p && !c.tree.contains_key(&abs) && r.chance(50) { c.put(&abs, format!("decoy{}", r.below(100))); }
            }
        }
    }
    let tg = lossy(&run.args[0])[2..].to_string();
    for _ in 0..2 + r.below(5) {
        let p = r.pick(&srcs).clone();
        let NodeKind::File(d) = c.tree[&p].kind.clone() else { continue };
        let t = if r.chance(70) { tg.clone() } else { r.pick(&TARGETS).to_string() };
        let d = if r.chance(40) { related(r, &d, t == "css") } else { d };
        let mut l = match r.below(5) {
            0 => format!("file {} {} {}", t, r.below(2), esc(p.as_bytes())),
            1 => format!("twice {} 1 {} {}", t, esc(p.as_bytes()), esc(&d)),
            2 => format!("stream {} 1 {} {}", t, r.below(20) + 1, esc(&d)),
            _ => format!("build {} 1 {} {}", t, if r.chance(30) { "-".into() } else { esc(p.as_bytes()) }, esc(&d)),
        };
        let mut mine = incs.clone();
        if r.chance(60) { mine.retain(|_| r.chance(50)); r.shuffle(&mut mine); }
        for i in &mine { l += " "; l += &esc(i.as_bytes()); }
        if !lines.is_empty() && r.chance(55) { lines.push("thread".into()); }
        lines.push(l);
    }
    if r.chance(12) {
        // Failures, over and over.
        c.put("/w/bad.sex", ["(%nonesuch)", "(p (%include \"nowhere\"))", "(a \"", "(%define (m x) (%nonesuch %x)) (%m 1)", "\\"][r.below(5)]);
        c.put("/w/worse.sex", "(%include \"bad\")");
        let s = ["(%include \"bad\")", "(%include bad) x", "(%define (m) (%include \"bad\")) (p (%m))", "(%for i in (1 2) (b (%include \"worse\")))", "(%nonesuch)", "(%map (%lambda (x) (%nonesuch %x)) 1 2)",
            "(%namespace n (%include \"bad\"))", "(%match 1 (1 (%include \"bad\")))", "(%sort (%list b a) :key (%lambda (n) (%nope %n)))", "(a (b (c \"", "(%os/env \"NO SUCH\")", "(%error no)", "(%define x (%apply (%lambda (a) (%nope)) 1))", "(%embed \"nowhere\")", "(%date \"%F\" x)", "(%glob \"[\")"];
        let l = format!("build {} 1 {} {}", tg, esc(b"/w/m9.sex"), esc(r.pick(&s).as_bytes()));
        let at = r.below(lines.len() + 1);
        let many = if r.chance(20) { *r.pick(&[150, 270, 300, 600]) } else { [10, 40, 70][r.below(3)] };
        // Or one that has nothing wrong with it.
        let l = if r.chance(20) { format!("build {} 1 {} {}", tg, esc(b"/w/m9.sex"), esc(if tg == "css" { "(p :a b)" } else { "(p (%string a) %nothing)" }.replace("%nothing", "(%define a 1)").as_bytes())) } else { l };
        for _ in 0..many { lines.insert(at, l.clone()); }
    }
    c.set("plan", lines.join("\n") + "\n");
    let mut m = Run { args: vec![], ..run };
    m.plain(format!("sched {} {}", r.below(1 << 30), [1, 2, 5, 20, 100][r.below(5)]));
    if r.chance(40) { m.plain(format!("heap {} 66 {}", r.below(4), r.below(1000))); }
    if r.chance(30) { m.dirs.push(Dir::Chunk("*".into(), plan(r))); }
    c.runs.push(m);
}

fn c09_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    if c.kind == "probe" {
        let lines: Vec<&str> = c.param("plan").lines().collect();
        let builds: Vec<&str> = lines.iter().filter(|l| **l != "thread").cloned().collect();
        let mut want: Vec<String> = vec![];
        let mut known = std::collections::BTreeMap::new();
        for b in &builds {
            if let Some(w) = known.get(b) { want.push(String::clone(w)); continue; }
            // Alone in its own process; twice means the same thing twice.
            let single = b.replacen("twice ", "build ", 1);
            let (_, l) = probe(x, c, run, &format!("{}\n", single))?;
            let Some(l) = l.first().cloned() else { return skip("shape") };
            if l == "panic" { return skip("panic"); }
            let l = if b.starts_with("twice ") { format!("{} | {}", l, l) } else { l };
            known.insert(*b, l.clone());
            want.push(l);
        }
        let (t, got) = probe(x, c, run, c.param("plan"))?;
        if got != want {
            let i = (0..want.len()).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
            return bad("interference", format!("step {} ({})\nalone:    {}\ntogether: {}\n{}", i, builds.get(i).unwrap_or(&""), want.get(i).unwrap_or(&String::new()), got.get(i).unwrap_or(&String::new()), t.summary()));
        }
        if t.threads > 1 { x.st.hit("builds in several threads"); }
        if want.iter().any(|w| w.starts_with("err")) && want.iter().any(|w| w.starts_with("ok")) { x.st.hit("failing and succeeding builds together"); }
        return Ok(builds.len() > 1);
    }
    let names: Vec<Vec<u8>> = run.args.iter().filter(|a| !a.starts_with(b"-")).cloned().collect();
    if names.is_empty() || run.args.iter().any(|a| a == b"-") { return skip("shape"); }
    let (mut out, mut err, mut code) = (vec![], vec![], 0);
    for n in &names {
        let mut one = run.clone();
        one.args.retain(|a| a.starts_with(b"-"));
        one.args.push(n.clone());
        let t = x.go(c, &one)?;
        if let Some(w) = t.crash() { return skip(&w); }
        code = t.code();
        out.extend(t.out);
        err.extend(t.err);
        if code != 0 { break; }
    }
    let t = x.go(c, run)?;
    let note = || format!("one by one: status {} out {:?} err {:?}\ntogether: {}", code, lossy(&out), plain(&lossy(&err)), t.summary());
    if t.code() != code { return bad("status", note()); }
    if t.out != out { return bad("output", note()); }
    if t.err != err { return bad("diagnostics", note()); }
    x.st.hit("several sources on the command line");
    Ok(names.len() > 1)
}

/* ------------------------------------------------------------------ C10 -- */

fn c10_make(r: &mut Rng, c: &mut Case) {
    let mut run = Run::new("base", &["--text"]);
    let plain = ["a.txt", "b.txt", "B.txt", "c.md", "d e.md", ".hid", "é.txt", "10", "9", "ab", "abc", "x.d", "[b]", "z"];
    // Around the dot and the slash.
    let near = ["a", "a.txt", "a-b", "a b", "a,b", "a+b", "a.a", "a.b.c", "a0", "a_b", "aB", "a!", "s.t", "s-t"];
    let names = if r.chance(30) { near } else { plain };
    let bases = ["g", "g/s", "g/s/t", "g/x.d", "h", "g/s-t", "g/s.t"];
    let old = if r.chance(10) { 60 } else { 5 };
    for b in bases {
        if !r.chance(60) { continue; }
        for n in names {
            if !r.chance(35) { continue; }
            let p = format!("/w/{}/{}", b, n);
            if c.tree.contains_key(&p) || bases.iter().any(|b| *b == &p[3..]) { continue; }
            let node = match r.below(10) {
                0 => VNode::dir(),
                1 => VNode::link(["a.txt", "../h", "/w/g", "s"][r.below(4)]),
                2 => VNode::link("gone"),
                3 if r.chance(50) => VNode::link(n),
                3 => VNode { kind: NodeKind::Sock, ..VNode::file("") },
                _ => VNode::file("x"),
            };
            let t0 = if r.chance(old) { 0 } else { T0 }; // Times before 1970 too.
            c.tree.insert(p, VNode { mtime: t0 + r.range(-2, 3) * 1_000_000_000 + r.range(0, 2), btime: t0 + r.range(0, 3) * 1_000_000_000, ..node });
        }
    }
    let crowd = r.below(300) == 0;
    if crowd {
        for i in 0..200 + r.below(2600) { c.tree.insert(format!("/w/h/n{}{}.txt", r.below(10), i), VNode { mtime: T0 + (i as i64 % 7) * 1_000_000_000, btime: T0, ..VNode::file("x") }); }
    }
    let links_up = c.tree.values().any(|n| matches!(&n.kind, NodeKind::Link(t) if t.contains(&b'/') || t == b"s"));
    let pats = ["g/*", "g/*.txt", "g/[ab]*", "g/?*", "*", "/w/g/*", "g/*/", "g/*/*", "g/s/*", "h/[!a]*", "g/a.txt", "g/[[]b]", "g/??", "*/*.txt", "nope/*", "g/x.d/*.md"];
    let deep = ["g/**/*.txt", "**/*.md", "g/**", "**/a*", "g/**/*"];
    let mut pat = || if crowd && r.chance(70) { ["h/*", "h/n1*", "*/*.txt", "h/*[05].txt"][r.below(4)].to_string() } else if !links_up && r.chance(30) { r.pick(&deep).to_string() } else { r.pick(&pats).to_string() };
    let (p1, p2) = (pat(), pat());
    let opts = |r: &mut Rng| {
        let ty = ["", " :type file", " :type directory", " :type any", " :type any"][r.below(5)];
        if r.chance(10) { return ty.to_string(); }
        let sort = ["name", "modified", "created", "type", "name"][r.below(5)];
        format!(" :sort {}{}{}", sort, ty, ["", " :order descending", " :order ascending"][r.below(3)])
    };
    let (o1, o2) = (opts(r), opts(r));
    let turning = r.chance(15);
    let doc = if turning {
        // The tree changes from one listing to the next.
        let mut d = String::new();
        for k in 0..2 + r.below(3) {
            let g = match r.below(3) { 0 => format!("(%glob \"{p1}\"{o1})"), 1 => format!("(%list (%glob \"{p1}\"{o1}))"), _ => format!("(%list (%glob \"{p2}\"{o2}))") };
            if k > 0 {
                d += &format!(" (%embed \"mk{k}\") ");
                c.put(&format!("/w/mk{k}"), "");
                for _ in 0..r.below(3) {
                    let b = *r.pick(&bases);
                    let p = format!("/w/{}/{}", b, r.pick(&names));
                    if bases.iter().any(|b| *b == &p[3..]) { continue; }
                    let links = std::iter::successors(Some(p.as_str()), |p| p.rsplit_once('/').map(|x| x.0)).any(|q| matches!(c.tree.get(q).map(|n| &n.kind), Some(NodeKind::Link(_))));
                    let above = p.rsplit_once('/').unwrap().0.to_string();
                    let blocked = std::iter::successors(Some(above.as_str()), |p| p.rsplit_once('/').map(|x| x.0)).any(|q| matches!(c.tree.get(q).map(|n| &n.kind), Some(NodeKind::File(_))));
                    if links || blocked || matches!(c.tree.get(&p).map(|n| &n.kind), Some(NodeKind::Dir)) { continue; }
                    let act = if c.tree.contains_key(&p) && r.chance(60) { Act::Del(p) } else { Act::Set(p, b"new".to_vec()) };
                    run.dirs.push(Dir::Mut { op: "open".into(), path: format!("/w/mk{k}"), nth: 1, act });
                }
            }
            d += &g;
        }
        d
    } else { match r.below(5) {
        0 => format!("(%glob \"{p1}\"{o1})"),
        1 => format!("(%list (%glob \"{p1}\"{o1}))\n(%list (%glob \"{p1}\"{o2}))"),
        2 => format!("(%for f in (%list (%glob \"{p1}\"{o1})) (- %f))"),
        3 => format!("(%sort (%list (%glob \"{p1}\")))\n(%list (%glob \"{p2}\"{o2}))"),
        _ => format!("(%list (%glob \"{p1}\"{o1})) (%list (%glob \"{p2}\"{o2}))"),
    } };
    c.put("/w/m.sex", doc);
    run.args.push(b"m.sex".to_vec());
    if r.chance(70) { run.plain(format!("rdseed {}", 1 + r.below(1 << 30))); }
    if r.chance(30) { run.plain("dtunknown"); }
    if r.chance(15) { harmless(r, &mut run, &[]); }
    let listed: Vec<String> = match crate::model::build_all(c, &run) { Ok(o) => o.touched.into_iter().filter(|p| p.starts_with("/w/") && *p != "/w/m.sex").collect(), Err(_) => vec![] };
    let dirs: Vec<String> = listed.iter().filter(|p| !matches!(c.tree.get(*p).map(|n| &n.kind), Some(NodeKind::File(_) | NodeKind::Link(_)))).cloned().collect();
    for _ in 0..r.below(3) {
        match r.below(6) {
            // Entries vanish once their directory was opened.
            0..=2 => {
                let inside: Vec<&String> = c.tree.keys().filter(|p| p.starts_with("/w/g/") || p.starts_with("/w/h/")).collect();
                if inside.is_empty() { continue; }
                let p = r.pick(&inside).to_string();
                let d = p.rsplit_once('/').unwrap().0.to_string();
                run.dirs.push(Dir::Mut { op: "opendir".into(), path: d, nth: 1, act: Act::Del(p) });
            },
            3 | 4 if !dirs.is_empty() => {
                let d = r.pick(&dirs).clone();
                if r.chance(50) { run.fault("opendir", &d, 1, -1, *r.pick(&[13, 5, 24, 2])); } else { run.fault("readdir", &d, 1, -1, 5); }
            },
            5 if !listed.is_empty() && !p1.contains("**") && !p2.contains("**") => {
                let leaf: Vec<&String> = listed.iter().filter(|p| matches!(c.tree.get(*p).map(|n| &n.kind), Some(NodeKind::File(_))) && !p1.ends_with(p.rsplit('/').next().unwrap_or("")) && !p2.ends_with(p.rsplit('/').next().unwrap_or(""))).collect();
                if leaf.is_empty() { continue; }
                let p = r.pick(&leaf).to_string();
                run.fault("stat", &p, 1, -1, *r.pick(&[13, 5, 116]));
            },
            _ => {},
        }
    }
    c.runs.push(run);
}

fn c10_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let o = x.model(c, run)?;
    let t = x.go(c, run)?;
    x.exact(&t, &o)?;
    if o.code != 0 { x.st.hit("listing failed"); } else if o.out.len() > 6 { x.st.hit("listing with entries"); }
    if x.fired > 0 && o.code == 0 { x.st.hit("listing while entries vanish"); }
    Ok(t.evs.iter().any(|e| matches!(e, Ev::OpenDir { .. })))
}

/* ------------------------------------------------------------------ C11 -- */

/// Local zones without a file of the zone database.
const TZS: [&str; 18] = ["Nowhere/Land", ":nothere", "", "UTC0", "CET-1", "<+0330>-3:30", "EST5", "XYZ12:34:56", "A1", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3",
    "AAA0BBB,J60,J300/1", "AAA4BBB,0/0,364/23", "ABC-167", "ABC23:59:59", "AAA-23BBB,M1.1.0,M6.1.1", "AAA0BBB0,0/0,J365/23", "EST5EDT"];

fn c11_make(r: &mut Rng, c: &mut Case) {
    let mut run = Run::new("base", &["--text"]);
    let mut at = None;
    match r.below(12) {
        0 => {},
        1 => run.env.push((b"TZ".to_vec(), r.pick(&TZS).as_bytes().to_vec())),
        _ => { let z = put_zone(c, &mut run, r); if !z.changes.is_empty() { at = Some(r.pick(&z.changes).0); } },
    }
    let now = |r: &mut Rng| -> i64 {
        let s = match (at, r.below(3)) {
            (Some(a), 0 | 1) => a + [-3601, -1, 0, 1, 1800, 3599, 3600, 86400][r.below(8)],
            _ => { let l = clock(r); return l.split(' ').nth(1).unwrap().parse().unwrap(); },
        };
        s * 1_000_000_000 + [0, 1, 500_000_000, 999_999_999][r.below(4)]
    };
    let start = now(r);
    run.plain(format!("clock {} 0", start));
    let fmts = ["%Y-%m-%d %H:%M:%S", "%F %T %z", "%s", "%s %z", "%A %e %B %Y", "%H:%M:%S%:z", "%j %U %W %u %w", "%d/%m/%y", "%I:%M %p", "%%%b %a", "%FT%T%:z", "%c", "%D", "%R", "%n%t%Z", "%C %y %G %g %V", "%k %l %P", "%h %v %r", "%x %X", "%S.%f", "%.3f", "%Q", "%", "plain", "", "%+", "%_d %-d %0e", "é %Y"];
    let offs = ["", "", "", " :timezone 0", " :timezone -5", " :timezone 5.5", " :timezone +13.75", " :timezone 24", " :timezone -23.99", " :timezone 1e3", " :timezone 99999999999", " :timezone \"3\"", " :timezone x", " :timezone 0.0001", " :timezone -0.5", " :timezone 12."];
    let date = |r: &mut Rng, explicit: u32| {
        let f = fmts[if r.chance(80) { r.below(14) } else { r.below(fmts.len()) }];
        let o = offs[if r.chance(85) { r.below(7) } else { r.below(offs.len()) }];
        if r.chance(explicit) {
            let t = match r.below(8) {
                0 => "9999999999999999".to_string(), 1 => "-1".into(), 2 => format!("{}", r.range(-10_000_000_000, 10_000_000_000)), 3 => "1e9".into(), 4 => format!("{}.{}", r.range(0, 2_000_000_000), r.below(1000)),
                _ => match at { Some(a) => format!("{}", a + r.range(-2, 2)), None => format!("{}", r.range(0, 2_000_000_000)) } };
            format!("(%date \"{}\" {}{})", f, t, o)
        } else { format!("(%date \"{}\"{})", f, o) }
    };
    let stamp = |r: &mut Rng| {
        let t = r.range(0, 2_000_000_000);
        let (y, m, d) = crate::model::time::civil(t / 86400);
        let hms = format!("{:02}:{:02}:{:02}", t / 3600 % 24, t / 60 % 60, t % 60);
        let o = offs[if r.chance(85) { r.below(7) } else { r.below(offs.len()) }];
        match r.below(6) {
            0 => format!("(%timestamp \"%Y-%m-%d %H:%M:%S %z\" \"{:04}-{:02}-{:02} {} {:+03}00\"{})", y, m, d, hms, r.range(-11, 12), o),
            1 => format!("(%timestamp \"%F\" \"{:04}-{:02}-{:02}\"{})", y, m, d, o),
            2 => format!("(%timestamp \"%F %T\" \"{:04}-{:02}-{:02} 25:00:00\"{})", y, m, d, o),
            3 => format!("(%timestamp \"%F %T\" \"{:04}-{:02}-{:02} {} x\"{})", y, m, d, hms, o),
            4 => match at {
                // In the gap or overlap of a change.
                Some(a) => { let s = a + r.range(-7200, 7200); let (y, m, d) = crate::model::time::civil(s.div_euclid(86400)); format!("(%timestamp \"%F %T\" \"{:04}-{:02}-{:02} {:02}:{:02}:{:02}\")", y, m, d, s.rem_euclid(86400) / 3600, s / 60 % 60, s % 60) },
                None => format!("(%timestamp \"%d/%m/%Y %H:%M:%S\" \"{:02}/{:02}/{:04} {}\"{})", d, m, y, hms, o),
            },
            _ => format!("(%timestamp \"%Y-%m-%d %H:%M:%S\" \"{:04}-{:02}-{:02} {}\"{})", y, m, d, hms, o),
        }
    };
    let only_explicit = r.chance(20);
    let mut doc = String::new();
    let n = 1 + r.below(5);
    for i in 0..n {
        if i > 0 { doc += ["\n", " ", " | "][r.below(3)]; }
        let d = match r.below(5) { 0 | 1 => stamp(r), _ => date(r, if only_explicit { 100 } else { 35 }) };
        doc += &match r.below(6) {
            0 => format!("(%define x{} {}) %x{}", i, d, i),
            1 if !only_explicit => format!("(%for k in (1 2) {} (%embed \"mk{}\"))", d, i),
            2 => format!("(p {})", d),
            _ => d,
        };
        if !only_explicit {
            c.put(&format!("/w/mk{}", i), "");
            doc += &format!(" (%embed \"mk{}\")", i);
            if r.chance(60) {
                let t = now(r);
                run.dirs.push(Dir::Mut { op: "open".into(), path: format!("/w/mk{}", i), nth: 1, act: Act::Clock(t) });
            }
        }
    }
    c.put("/w/m.sex", doc);
    run.args.push(b"m.sex".to_vec());
    c.runs.push(run);
    if only_explicit { let t = now(r); c.set("other", t.to_string()); c.set("tick", r.range(0, 5_000_000_000).to_string()); }
}

fn c11_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let o = x.model(c, run);
    let t = x.go(c, run)?;
    if let Some(w) = t.crash() { return bad("crash", format!("{}\n{}", w, t.summary())); }
    if !c.param("other").is_empty() {
        // The clock must not matter at all.
        let mut v = run.clone();
        v.dirs.retain(|d| !matches!(d, Dir::Plain(s) if s.starts_with("clock ")) && !matches!(d, Dir::Mut { .. }));
        v.plain(format!("clock {} {}", c.param("other"), c.param("tick")));
        let u = x.go(c, &v)?;
        let text = match c.tree.get("/w/m.sex").map(|n| n.kind.clone()) { Some(NodeKind::File(d)) => lossy(&d), _ => return skip("no source") };
        if !text.contains("(%embed") && explicit_only(&text) {
            if let Some(d) = differs(&t, &u, true) { return bad("clock leaks in", format!("{}\n{}\n{}", d, t.summary(), u.summary())); }
            x.st.hit("explicit times under two clocks");
        }
    }
    let o = o?;
    x.exact(&t, &o)?;
    if o.code != 0 { x.st.hit("invalid date reported"); }
    if o.muts > 0 { x.st.hit("clock changed between evaluations"); }
    Ok(t.evs.iter().any(|e| matches!(e, Ev::Clock(_))) || o.out.len() > 3)
}

fn explicit_only(t: &str) -> bool {
    t.match_indices("(%date ").all(|(i, _)| {
        let Some(f) = balanced(&t[i..]) else { return false };
        let after = f.rsplit('"').next().unwrap_or("");
        let first = f.splitn(3, '"').nth(2).unwrap_or("");
        let _ = after;
        first.trim_start().starts_with(|c: char| c.is_ascii_digit() || c == '-')
    })
}

/* ------------------------------------------------------------------ C12 -- */

fn c12_make(r: &mut Rng, c: &mut Case) {
    for _ in 0..6 {
        *c = Case::new("C12", c.seed, c.index);
        c12_try(r, c);
        // Preferably something that fails.
        match c.runs.first().map(|run| crate::model::build_all(c, run)) { Some(Ok(o)) if o.code == 0 => {}, _ => return }
    }
}

fn c12_try(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    f.err = 6; f.multiline = true; f.unicode = true;
    let mut o = Opt::new(f);
    o.docs = 2; o.stdin = 20; o.zone = 5; o.huge = 2;
    let mut run = world(c, r, &o);
    if r.chance(30) {
        // Something left open: cut a source or an included file short.
        let t: Vec<String> = files(c).into_iter().filter(|p| p.contains("/m") || p.contains("/f")).collect();
        if !t.is_empty() {
            let p = r.pick(&t).clone();
            if let NodeKind::File(d) = &c.tree[&p].kind {
                let mut s = lossy(d);
                let mut k = r.below(s.len() + 1);
                while !s.is_char_boundary(k) { k -= 1; }
                if r.chance(60) { s.truncate(k); } else { s.insert_str(k, ["(", "\"", ")", "(a (b \"", "\"\"\"", "\\", ":k", "\"x\\q\""][r.below(8)]); }
                c.put(&p, s);
            }
        }
    }
    if r.chance(12) {
        // Characters with no width, with two, or that join with their neighbours.
        let t: Vec<String> = files(c).into_iter().filter(|p| p.contains("/m") || p.contains("/f")).collect();
        if !t.is_empty() {
            let p = r.pick(&t).clone();
            if let NodeKind::File(d) = &c.tree[&p].kind {
                let mut s = lossy(d);
                for _ in 0..1 + r.below(6) {
                    let mut k = r.below(s.len() + 1);
                    while !s.is_char_boundary(k) { k -= 1; }
                    s.insert_str(k, r.pick(&["\u{200d}", "\u{fe0f}", "❤\u{fe0f}", "\u{fe0e}", "e\u{301}", "\u{308}", "ﾊﾝ", "ＡＢ", "👨\u{200d}👩\u{200d}👧", "🇫🇷", "👍🏽", "\u{1100}\u{1161}", "한", "\u{ad}", "\u{200b}", "\u{a0}", "\u{feff}", "\u{200f}", "\u{2028}", "\t", "\u{1}", "\u{7f}", "ß", "\u{3000}", "क्ष", "لا", "1\u{20e3}", "…", "\u{e000}", "\u{10ffff}"]));
                }
                c.put(&p, s);
            }
        }
    }
    if r.chance(8) {
        // Far down, or far to the right.
        let t: Vec<String> = files(c).into_iter().filter(|p| p.contains("/m") || p.contains("/f")).collect();
        if let Some(NodeKind::File(d)) = (!t.is_empty()).then(|| r.pick(&t).clone()).and_then(|p| c.tree.get(&p).map(|n| (p, n.kind.clone()))).map(|(p, k)| { c.set("far", p); k }) {
            let n = *r.pick(&[120, 127, 250, 256, 999, 1024, 4095, 9999, 32_767, 65_533, 70_000]) + r.below(4);
            let pre = match r.below(7) {
                0 => "\n".repeat(n), 1 => " ".repeat(n), 2 => format!("\"{}\" ", "x".repeat(n)), 3 => format!(";{}\n", "c".repeat(n)),
                4 => "x ".repeat(n / 2 + 1), 5 => format!("\"{}\" ", "é\n".repeat(n / 2 + 1)), _ => format!("{}{}", "\n".repeat(n / 2), " ".repeat(n / 2)) };
            let p = c.param("far").to_string();
            c.put(&p, format!("{}{}", pre, lossy(&d)));
        }
    }
    if r.chance(20) {
        if let Ok(m) = crate::model::build_all(c, &run) {
            let t: Vec<String> = m.opened.into_iter().filter(|p| p.contains("/f")).collect();
            if !t.is_empty() {
                let p = r.pick(&t).clone();
                match r.below(3) { 0 => run.fault("open", &p, 1, -1, 13), 1 => run.fault("read", &p, 1, -1, 5), _ => run.overlay.push((p, Some(VNode::dir()))) }
            }
        }
    }
    c.runs.push(run);
}

/// A lambda's name, seen in what was printed, holds a hash of where it is.
fn lambda_named(b: &[u8]) -> bool { b.windows(8).any(|w| w == b"__lambda") }

fn c12_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let o = x.model(c, run)?;
    if o.code == 0 { return skip("builds"); }
    let t = x.go(c, run)?;
    if let Some(w) = t.crash() { return bad("crash", format!("{}; expected a diagnostic at {:?} ({})\n{}", w, o.at, o.why, t.summary())); }
    if t.code() == 0 { return bad("not reported", format!("expected a diagnostic at {:?} ({})\n{}", o.at, o.why, t.summary())); }
    let Some(at) = &o.at else { return Ok(false) };
    if !locations(&t.stderr()).contains(at) { return bad("location", format!("expected a diagnostic at {:?} ({})\n{}", at, o.why, t.summary())); }
    x.st.hit(&format!("located: {}", o.why));
    if at.0.contains("/f") || at.0.starts_with('f') { x.st.hit("located in an included file"); }
    Ok(at.1 > 1 || at.2 > 1)
}

/* ------------------------------------------------------------------ C13 -- */

fn c13_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    f.log = true;
    if r.chance(15) { f.err = 1; }
    let mut o = Opt::new(f);
    o.docs = 2; o.stdin = 15; o.zone = 5; o.huge = 2;
    let run = world(c, r, &o);
    c.runs.push(run);
    // More of them, in every kind of place.
    if let Some(NodeKind::File(d)) = c.tree.get("/w/m0.sex").map(|n| n.kind.clone()) {
        let mut s = lossy(&d);
        for k in 0..r.below(4) {
            s += &match r.below(18) {
                10 => format!("\n(%define (lg{k} n) (%log msg9{k} same) %n) (%filter lg{k} 1 () 2 (%list))"),
                11 => format!("\n(%define (lg{k} n) (%log msg9{k} %n) (%list)) (%filter lg{k} 1 (%list) 2)"),
                12 => format!("\n(%define (lg{k} n) (%log msg9{k} %n) %n) (%sort (1 3 2) :key lg{k}) (%map lg{k} 1 2)"),
                13 => format!("\n(%match (1 2) (((%do (%log msg9{k} a) 1) 3) no) ((1 2) yes) (((%do (%log msg9{k} b) 1) 2) late))"),
                14 => format!("\n(%define (lg{k} a :b 1 &r) %a) (%lg{k} (%do (%log msg9{k} x) 1) :b (%do (%log msg9{k} y) 2) (%do (%log msg9{k} z) 3))"),
                15 => format!("\n(%ifdef m0 (%do (%log msg9{k} yes) 1) (%do (%log msg9{k} no) 2)) (%get (%do (%log msg9{k} i) 0) (%list (%do (%log msg9{k} l) a)))"),
                16 => format!("\n(%namespace sp{k} (%log msg9{k} in) (%define w (%do (%log msg9{k} def) 1))) %sp{k}/w %sp{k}/w"),
                17 => format!("\n(%define lz{k} (%lambda (x) (%log msg9{k} lam %x) %x)) (%apply %lz{k} 1) (%concat (%apply %lz{k} 2) (%apply %lz{k} 3))"),
                6 => format!("\n(%for q in (1 2 3) (%log msg9{k} same))"),
                7 => format!("\n(%define (lg{k}) (%log msg9{k} same) (%do))\n(%lg{k}) (%lg{k})\n(%lg{k})"),
                8 => format!("\n(%log \"msg9{k} one\ntwo\" three)"),
                9 if r.chance(30) => format!("\n(%log msg9{k} then) (%nonesuch) (%log msg9{k} never)"),
                9 => format!("\n(%log msg9{k}) (%log msg9{k})"),
                0 => format!("\n(%for q in (1 2 3) (%log msg9{k} at %q))"),
                1 => format!("\n(%define (lg{k} n) (%log msg9{k} got %n) %n)\n(%define z{k} (%lg{k} 7))"),
                2 => format!("\n(%ifdef nothing (%log msg9{k} never) (%do))"),
                3 => format!("\n(%match 2 (1 (%log msg9{k} one)) (2 (%log msg9{k} two)))"),
                4 => format!("\n(%define u{k} (%log msg9{k} in define))"),
                _ => format!("\n(%log msg9{k} {} \"é 日本\" {})", "long ".repeat(r.below(300)).trim_end(), r.next()),
            };
        }
        if r.below(60) == 0 {
            // One that is very long.
            s += &format!("\n(%log msg96 {} the end)", r.pick(&["long ", "\"ab cd\" ", "é ", "日本 "]).repeat(*r.pick(&[900, 3500, 9000, 23000, 70000])).trim_end());
        }
        if r.below(250) == 0 {
            // Very many.
            let ten = "(0 1 2 3 4 5 6 7 8 9)";
            s += &match r.below(3) {
                0 => format!("\n(%for a in {ten} (%for b in {ten} (%log msg97 %a %b)))"),
                1 => format!("\n(%for a in {ten} (%for b in {ten} (%for c in {ten} (%log msg97 %a %b %c))))"),
                _ => format!("\n(%for a in {ten} (%for b in {ten} (%for c in {ten} (%log msg97 the same))))"),
            };
        }
        // And in some place nobody thought of.
        for k in 0..r.below(3) {
            let at: Vec<usize> = s.char_indices().filter(|x| x.1 == ' ' || x.1 == '(').map(|x| x.0).collect();
            if !at.is_empty() { s.insert_str(*r.pick(&at), &format!(" (%log msg8{k} here)")); }
        }
        c.put("/w/m0.sex", s);
    }
    let mut v = Run::new("stderr faults", &[]);
    if r.chance(50) { v.dirs.push(Dir::WLimit(2, (0..1 + r.below(4)).map(|_| 1 + r.below(9) as u32).collect())); }
    if r.chance(40) { v.fault("write", "<stderr>", 1 + r.below(6) as i64, 1 + r.below(3) as i64, 4); }
    if r.chance(70) { v.fault("write", "<stderr>", 1 + r.below(6) as i64, if r.chance(50) { -1 } else { 1 + r.below(3) as i64 }, *r.pick(&[5, 28, 32, 11])); }
    c.runs.push(v);
}

/// Every `(%log …)` gone, leaving something that yields nothing either.
fn silence(t: &str) -> String {
    let mut out = String::new();
    let mut i = 0;
    while i < t.len() {
        if t[i..].starts_with("(%log msg") {
            if let Some(f) = balanced(&t[i..]) {
                out += "(%do)";
                i += f.len();
                continue;
            }
        }
        let ch = t[i..].chars().next().unwrap();
        out.push(ch);
        i += ch.len_utf8();
    }
    out
}

fn c13_check(x: &mut Cx, c: &Case) -> V {
    if c.runs.len() < 2 { return skip("empty"); }
    let base = &c.runs[0];
    let o = x.model(c, base)?;
    let t = x.go(c, base)?;
    x.exact(&t, &o)?;
    // Exactly once, in order, with the place.
    let err = t.stderr();
    let lines: Vec<&str> = err.lines().collect();
    let mut k = 0;
    for (loc, msg) in &o.logs {
        let first = msg.lines().next().unwrap_or("");
        let hit = lines[k..].iter().position(|l| l.contains(first) && locations(l).contains(loc));
        match hit {
            Some(i) => k += i + 1,
            None => return bad("message", format!("missing or out of order: {:?} at {:?}\n{}", msg, loc, t.summary())),
        }
        if !err.contains(msg.as_str()) { return bad("message", format!("mangled: {:?}\n{}", msg, t.summary())); }
    }
    if o.code == 0 {
        let seen = err.matches("msg").count();
        let want: usize = o.logs.iter().map(|l| l.1.matches("msg").count()).sum();
        if seen != want { return bad("message", format!("{} messages expected, {} seen\n{}", want, seen, t.summary())); }
    }
    // Without logging.
    let mut twin = c.clone();
    let mut changed = false;
    for n in twin.tree.values_mut() {
        if let NodeKind::File(d) = &mut n.kind {
            if let Ok(s) = std::str::from_utf8(d) { let q = silence(s); if q != s { *d = q.into_bytes(); changed = true; } }
        }
    }
    let mut quiet = base.clone();
    if let Ok(s) = String::from_utf8(quiet.stdin.clone()) { let q = silence(&s); changed |= q != s; quiet.stdin = q.into_bytes(); }
    if changed && o.code == 0 {
        // (What looks like one in a string or a comment is none.)
        if crate::model::build_all(&twin, &quiet).is_ok_and(|m| m.code == 0 && m.out == o.out) {
            let q = x.go(&twin, &quiet)?;
            if let Some(d) = differs(&t, &q, false) { return bad("influence", format!("{} differs\nwith log:    {}\nwithout log: {}", d, t.summary(), q.summary())); }
            x.st.hit("compared with a build without logging");
        }
    }
    // With a failing standard error.
    let v = join(base, &c.runs[1]);
    let u = x.go(c, &v)?;
    let note = || format!("healthy: {}\nfailing standard error: {}", t.summary(), u.summary());
    if u.out != t.out { return bad("stderr output", note()); }
    if (u.code() == 0) != (t.code() == 0) { return bad("stderr status", note()); }
    let broken = u.evs.iter().any(|e| matches!(e, Ev::WriteErr { fd: 2, errno } if *errno != 4));
    if o.code == 0 { if let Some(w) = u.crash() { return bad("stderr crash", format!("{}\n{}", w, note())); } }
    if !broken && (u.code() != t.code() || u.err != t.err) { return bad("stderr", note()); }
    if broken { x.st.hit("standard error could not be written"); }
    if o.logs.len() > 1 { x.st.hit("several messages"); }
    Ok(!o.logs.is_empty())
}

/* ------------------------------------------------------------------ C14 -- */

fn c14_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    if r.chance(40) { f.err = 3; }
    let mut o = Opt::new(f);
    o.docs = 3; o.stdin = 20; o.zone = 40; o.huge = 2;
    if r.chance(25) {
        // Many files under a small limit.
        let n = 10 + r.below(60);
        let mut run = Run::new("base", &["--text"]);
        let mut doc = String::new();
        for i in 0..n {
            doc += &match r.below(4) { 0 => format!("(%embed \"e{i}\")\n"), 1 => format!("(%list (%glob \"gg/*\" :sort name))\n"), _ => format!("(%include \"e{i}\")\n") };
            c.put(&format!("/w/e{i}"), if i % 5 == 4 { format!("(%include \"e{}\") x", i - 1) } else { format!("word{i}") });
        }
        for i in 0..5 { c.put(&format!("/w/gg/{i}"), ""); }
        c.put("/w/m.sex", doc);
        run.plain(format!("fdlimit {}", 5 + r.below(4)));
        run.args.push(b"m.sex".to_vec());
        if r.chance(50) { run.args.push(b"m.sex".to_vec()); }
        c.runs.push(run);
        return;
    }
    let mut run = world(c, r, &o);
    if r.chance(40) {
        let t = files(c);
        for _ in 0..1 + r.below(2) {
            let p = r.pick(&t).clone();
            match r.below(4) { 0 => run.fault("open", &p, 1, -1, 13), 1 => run.fault("read", &p, 1, -1, 5), 2 => run.fault("close", &p, 1, -1, 5), _ => run.fault("readdir", "*", 1, -1, 5) }
        }
    }
    c.runs.push(run);
}

fn c14_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let t = x.go(c, run)?;
    let v = c14_one(x, c, run, &t)?;
    // With whatever else it asks for set it keeps to itself all the same.
    for n in asked(&t, run).iter().filter(|n| !NEUTRAL.contains(&n.as_str())).take(3) {
        for v in ["/w/new", "1"] {
            let mut u = run.clone();
            u.env.push((n.clone().into_bytes(), v.into()));
            let t = x.go(c, &u)?;
            c14_effects(&t)?;
        }
        x.st.hit("other variable asked for");
    }
    if let Ok(o) = crate::model::build_all(c, run) { looked_for(x, c, run, &t, &o.touched)?; }
    Ok(v)
}

/// What was looked for in vain, there: where the model says no document names
/// it, it must make no difference.
fn looked_for(x: &mut Cx, c: &Case, run: &Run, t: &Trace, touched: &BTreeSet<String>) -> Result<(), Verdict> {
    let missing: BTreeSet<String> = t.evs.iter().filter_map(|e| match e {
        Ev::Stat { path, canon, ret } if *ret < 0 => {
            let abs = norm_path(&if path.starts_with('/') { path.clone() } else { format!("{}/{}", c.cwd, path) });
            (!touched.contains(canon) && !touched.contains(&abs) && !zoned(canon) && !zoned(&abs) && !c.tree.contains_key(&abs)).then_some(abs)
        },
        _ => None,
    }).collect();
    for p in missing.iter().filter(|p| p.len() > 1 && !p.starts_with("/dev/") && !p.starts_with("/proc/")).take(3) {
        for kind in ["file", "directory"] {
            let mut d = c.clone();
            d.tree.insert(p.clone(), if kind == "file" { VNode::file("another text") } else { VNode::dir() });
            let u = x.go(&d, run)?;
            c14_effects(&u)?;
            if u.code() == 93 || u.code() == 92 { continue; }
            if let Some(w) = differs(t, &u, false) { return bad("stray", format!("{} differs with a {} at {:?}, which no document names\n{}\n{}", w, kind, p, t.summary(), u.summary())); }
        }
        x.st.hit("other path looked for");
    }
    Ok(())
}

/// Where systems keep their time zones.
fn zoned(p: &str) -> bool {
    ["/usr/share/zoneinfo", "/usr/lib/zoneinfo", "/usr/share/lib/zoneinfo", "/etc/zoneinfo", "/etc/localtime", "/etc/timezone", "/etc/TZ", "/etc/config/system", "/etc/default/init", "/var/db/timezone", "/system/usr/share/zoneinfo", "/apex/", "/data/misc/zoneinfo"].iter().any(|z| p.starts_with(z))
}

fn c14_effects(t: &Trace) -> Result<(), Verdict> {
    for e in &t.evs {
        if let Ev::Effect { what, path } = e { return bad("effect", format!("{} {:?}\n{}", what, path, t.summary())); }
        if let Ev::BadClose(fd) = e { return bad("double close", format!("descriptor {}\n{}", fd, t.summary())); }
    }
    if t.flags & F_SECCOMP != 0 { return bad("effect", format!("system call outside the simulation\n{}", t.summary())); }
    Ok(())
}

fn c14_one(x: &mut Cx, c: &Case, run: &Run, t: &Trace) -> V {
    let closes = run.dirs.iter().any(|d| matches!(d, Dir::Fault { op, .. } if op == "close"));
    c14_effects(t)?;
    if t.flags & F_EXITED != 0 && t.leaked != 0 && t.crash().is_none() { return bad("leak", format!("{} descriptors open at the end\n{}", t.leaked, t.summary())); }
    // Between documents nothing stays open.
    let srcs: Vec<String> = run.args.iter().filter(|a| !a.starts_with(b"-")).map(|a| { let n = lossy(a); if n.starts_with('/') { norm_path(&n) } else { norm_path(&format!("{}/{}", c.cwd, n)) } }).collect();
    let mut next = 0;
    let mut open = std::collections::BTreeMap::<i64, String>::new();
    let o = crate::model::build_all(c, run);
    let mut deepest = 0;
    for e in &t.evs {
        match e {
            Ev::Open { canon, ret, path, .. } => {
                if next < srcs.len() && *canon == srcs[next] && distinct(&srcs) && o.is_ok() {
                    if next > 0 && !open.is_empty() { return bad("held", format!("{:?} still open when {:?} is started\n{}", open, canon, t.summary())); }
                    next += 1;
                }
                if *ret >= 0 { open.insert(*ret, canon.clone()); deepest = deepest.max(open.len()); }
                if let Ok(o) = &o {
                    let abs = norm_path(&if path.starts_with('/') { path.clone() } else { format!("{}/{}", c.cwd, path) });
                    let tz = [canon, &abs].iter().any(|p| zoned(p));
                    if !tz && !o.touched.contains(canon) && !o.touched.contains(&abs) { return bad("stray", format!("opened {:?}\n{}", path, t.summary())); }
                }
            },
            Ev::Close { fd, .. } => { open.remove(fd); },
            Ev::OpenDir { canon, fd, .. } => if *fd >= 0 {
                open.insert(*fd, canon.clone());
                if let Ok(o) = &o { if !o.touched.contains(canon) { return bad("stray", format!("listed {:?}\n{}", canon, t.summary())); } }
            },
            _ => {},
        }
    }
    if let Ok(o) = &o { if !closes { x.exact(t, o)?; } }
    if run.dirs.iter().any(|d| matches!(d, Dir::Plain(s) if s.starts_with("fdlimit"))) { x.st.hit("small descriptor limit"); }
    if t.code() != 0 { x.st.hit("failing build"); }
    if srcs.len() > 1 { x.st.hit("several documents"); }
    Ok(deepest > 0 && t.evs.len() > 6)
}

fn distinct(v: &[String]) -> bool { v.iter().collect::<BTreeSet<_>>().len() == v.len() }

/* ------------------------------------------------------------------ C15 -- */

/// One of the sources once more, by another of its names.
fn named_again(r: &mut Rng, c: &mut Case, run: &mut Run) {
    let i: Vec<usize> = (0..run.args.len()).filter(|i| !run.args[*i].starts_with(b"-")).collect();
    if i.is_empty() { return; }
    let i = *r.pick(&i);
    let n = lossy(&run.args[i]);
    let abs = if n.starts_with('/') { norm_path(&n) } else { norm_path(&format!("/w/{}", n)) };
    if !matches!(c.tree.get(&abs).map(|n| &n.kind), Some(NodeKind::File(_))) { return; }
    let other = match r.below(6) {
        0 | 1 => { c.tree.insert("/w/also.sex".into(), VNode::link(&abs)); "also.sex".to_string() },
        2 => { c.tree.insert("/w/also.sex".into(), VNode::link(abs.strip_prefix("/w/").unwrap_or(&abs))); "./also.sex".to_string() },
        3 => format!("..{}", abs),
        4 => abs.replacen('/', "//", 1),
        _ => abs.rsplit_once('/').map(|(d, f)| format!("{}/./{}", d, f)).unwrap_or(abs.clone()),
    };
    let k = if r.chance(80) { i + r.below(2) } else { r.below(run.args.len() + 1) };
    run.args.insert(k, other.into_bytes());
}

fn c15_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    if r.chance(25) { f.err = 3; }
    let mut o = Opt::new(f);
    o.docs = 4; o.stdin = 30; o.zone = 5; o.big = 25; o.huge = 16;
    if r.chance(70) { o.most = 140_000; }
    let mut run = world(c, r, &o);
    if r.chance(20) {
        // The stdin flag may stand anywhere; standard input still comes first.
        if let Some(i) = run.args.iter().position(|a| a == b"-") { let a = run.args.remove(i); let k = r.below(run.args.len() + 1); run.args.insert(k, a); }
    }
    if r.chance(8) {
        // With next to nothing in it.
        if !run.args.iter().any(|a| a == b"-") { let k = r.below(run.args.len() + 1); run.args.insert(k, b"-".to_vec()); }
        run.stdin = [&b""[..], b"", b"\n", b" \n\t", b"; nothing\n", b"(%do)", b"\xef\xbb\xbf"][r.below(7)].to_vec();
    }
    if r.chance(12) {
        // One of the sources is not there, or cannot be read.
        let i: Vec<usize> = (0..run.args.len()).filter(|i| !run.args[*i].starts_with(b"-")).collect();
        if !i.is_empty() {
            let i = *r.pick(&i);
            let n = lossy(&run.args[i]);
            let abs = if n.starts_with('/') { norm_path(&n) } else { norm_path(&format!("/w/{}", n)) };
            match r.below(5) {
                0 => run.args[i] = b"absent.sex".to_vec(),
                1 => run.fault("open", &abs, 1, -1, 13),
                2 => run.fault("read", &abs, 1, -1, 5),
                3 => run.overlay.push((abs, Some(VNode::file(b"word \xff".to_vec())))),
                _ => run.overlay.push((abs, Some(if r.chance(60) { VNode::dir() } else { VNode { kind: NodeKind::Sock, ..VNode::dir() } }))),
            }
        }
    }
    if r.chance(3) && c.param("huge").is_empty() {
        // Many documents.
        let t: Vec<Vec<u8>> = run.args.iter().filter(|a| !a.starts_with(b"-")).cloned().collect();
        if !t.is_empty() { for _ in 0..r.below(60) { let a = r.pick(&t).clone(); run.args.push(a); } }
    }
    if r.chance(12) && c.param("huge").is_empty() { named_again(r, c, &mut run); }
    c.runs.push(run);
    c.set("how", ["ops", "ops", "allocs", "nomem", "nomem"][r.below(5)]);
    c.set("points", format!("{} {} {}", r.below(1000), r.below(1000), 940 + r.below(60)));
    c.set("count", (if r.chance(50) { -1 } else { 1 + r.below(4) as i64 }).to_string());
    if r.chance(40) { c.set("limit", (1 + r.below(200)).to_string()); }
}

fn c15_check(x: &mut Cx, c: &Case) -> V {
    let Some(base) = c.runs.first() else { return skip("empty") };
    let t = x.go(c, base)?;
    if let Some(w) = t.crash() { return skip(&w); }
    let o = crate::model::build_all(c, base);
    if let Ok(o) = &o {
        x.exact(&t, o)?;
        // Each document is finished before its first byte appears.
        let mut ends = vec![];
        let mut n = 0;
        for d in &o.docs { n += d.len() + 1; ends.push(n); }
        let (mut at, mut doc) = (0usize, 0usize);
        for e in &t.evs {
            match e {
                Ev::Write { fd: 1, data } => { at += data.len(); while doc < ends.len() && at >= ends[doc] { doc += 1; } },
                Ev::Open { .. } | Ev::OpenDir { .. } | Ev::Read { .. } | Ev::Stat { .. } | Ev::Clock(_) => {
                    let start = if doc == 0 { 0 } else { ends[doc - 1] };
                    if doc < ends.len() && at > start { return bad("started early", format!("{} bytes of document {} out before it was generated\n{}", at - start, doc, t.summary())); }
                },
                _ => {},
            }
        }
        if o.docs.len() > 1 { x.st.hit("several documents"); }
        if o.code != 0 && !o.docs.is_empty() { x.st.hit("failure after complete documents"); }
    }
    // Where, while a document is written, something is still being made.
    let mut between: Vec<u64> = vec![];
    if let Ok(o) = &o {
        let mut ends = vec![];
        let mut n = 0;
        for d in &o.docs { n += d.len() + 1; ends.push(n); }
        let (mut at, mut last) = (0usize, 0i64);
        for e in &t.evs {
            match e {
                Ev::Allocs(n) => { if at > 0 && !ends.contains(&at) && *n > last { between.push(last as u64 + 1); } last = *n; },
                Ev::Write { fd: 1, data } => at += data.len(),
                _ => {},
            }
        }
    }
    if let (Ok(o), Some(at)) = (&o, between.get(between.len() / 2)) {
        let mut v = base.clone();
        v.plain(format!("killalloc {}", at));
        let u = x.go(c, &v)?;
        let mut n = 0;
        let mut whole = u.out.is_empty() || u.out == t.out;
        for d in &o.docs { n += d.len() + 1; whole |= n == u.out.len(); }
        if !whole { return bad("partial", format!("a document was begun before it was generated\nundisturbed: {}\nkilled at allocation {}: {}", t.summary(), at, u.summary())); }
    }
    // Sudden ends.
    let total = match c.param("how") { "ops" => t.ops, _ => t.allocs };
    for p in c.param("points").split(' ').filter_map(|p| p.parse::<u64>().ok()) {
        let at = (total * p / 1000).max(1);
        let mut v = base.clone();
        if let Ok(n) = c.param("limit").parse::<u32>() { v.dirs.push(Dir::WLimit(1, vec![n])); }
        match c.param("how") {
            "ops" => v.plain(format!("killop {}", at)),
            "allocs" => v.plain(format!("killalloc {}", at)),
            _ => v.plain(format!("allocfail {} {}", at, c.param("count"))),
        }
        let u = x.go(c, &v)?;
        let note = || format!("undisturbed: {}\ndisturbed at {} of {}: {}", t.summary(), at, total, u.summary());
        if u.hang || u.flags & F_HEAP != 0 || matches!(u.end, End::Exit(93 | 94 | 98)) { return bad("crash", note()); }
        if !t.out.starts_with(&u.out) { return bad("not a prefix", note()); }
        if u.code() == 0 && (u.out != t.out || t.code() != 0) { return bad("incomplete yet status 0", note()); }
        if u.killed() && !u.out.is_empty() { x.st.hit("killed after some output"); }
        if matches!(u.end, End::Signal(_)) { x.st.hit("ended by lack of memory"); }
        // Whole documents, but for the one being written when the end came.
        if let Ok(o) = &o {
            // Nothing is left to be allocated once it is being written.
            if !u.killed() && u.code() == 1 || c.param("how") != "ops" {
                let mut n = 0;
                let mut whole = u.out.is_empty();
                for d in &o.docs { n += d.len() + 1; whole |= n == u.out.len(); }
                whole |= u.out == t.out;
                if !whole { return bad("partial", note()); }
            }
        }
    }
    Ok(!t.out.is_empty())
}

/* ------------------------------------------------------------------ C16 -- */

/// Colours, and the local zone.
const NEUTRAL: [&str; 5] = ["NO_COLOR", "CLICOLOR", "CLICOLOR_FORCE", "TZ", "TZDIR"];

/// Variables the build asked for that are not set.
fn asked(t: &Trace, run: &Run) -> Vec<String> {
    let s: BTreeSet<String> = t.evs.iter().filter_map(|e| match e { Ev::Var(n) => Some(n.clone()), _ => None }).collect();
    s.into_iter().filter(|n| !run.env.iter().any(|e| e.0 == n.as_bytes()) && !n.starts_with("RUST_") && !n.contains('=') && !n.is_empty()).collect()
}

fn c16_make(r: &mut Rng, c: &mut Case) {
    let target = *r.pick(&TARGETS);
    let mut run = Run::new("base", &[&format!("--{}", target)]);
    let names = ["A", "a", "SEAM", "X Y", "é", "HOME", "PATH", "A.B", "LANG", "(x)", "%v", "9", "日本", "\"q\"", "A_B", "AA", " A", "A ", "É", "a-b", ""];
    let value = |r: &mut Rng| -> String {
        let mut s = String::new();
        for _ in 0..r.below(6) { s += ["<", ">", "&", "\"", "'", "\\", "é", "日本", "😀", " ", "\n", "\t", "%x", "(", ")", ";", "=", "a", "word", "\u{feff}", "0", "\u{7f}", "&amp;", "\r\n"][r.below(24)]; }
        if r.chance(5) { s = s.repeat(400); }
        // What other programs would look into.
        if r.chance(5) { let n = *r.pick(&names); s = match r.below(7) { 0 => format!("${n}"), 1 => format!("${{{n}}}"), 2 => format!("%{n}%"), 3 => format!("$({n})"), 4 => format!("~/{n}"), 5 => format!("@{n}"), _ => format!("`{n}`") }; }
        if r.below(200) == 0 { s = format!("{}é", "x".repeat([4090, 32_760, 65_530, 120_000][r.below(4)] + r.below(9))); }
        s
    };
    let mut set: Vec<(String, Vec<u8>)> = vec![];
    for n in names {
        if !r.chance(45) || n.is_empty() { continue; }
        let mut v = value(r).into_bytes();
        if r.chance(8) { let i = r.below(v.len() + 1); v.insert(i, [0x80, 0xff, 0xc3][r.below(3)]); }
        set.push((n.into(), v));
    }
    r.shuffle(&mut set);
    let mut doc = String::new();
    for i in 0..1 + r.below(4) {
        let n = if r.chance(88) && !set.is_empty() { r.pick(&set).0.clone() } else { r.pick(&names).to_string() };
        // A name no variable can have, near one that is there.
        let n = if r.chance(3) { match r.below(4) { 0 => format!("{n}\0"), 1 => format!("{n}\0B"), 2 => format!("{n}=x"), _ => format!("{n}=") } } else { n };
        let q = format!("\"{}\"", n.replace('\\', "\\\\").replace('"', "\\\""));
        let e = match r.below(7) {
            0 if n.chars().all(|c| c.is_alphanumeric() && !c.is_ascii_digit()) => format!("(%os/env {})", n),
            1 => format!("(%os/env (%concat {} \"\"))", q),
            2 => format!("(%define v{i} (%os/env {q})) %v{i}"),
            3 => format!("(%concat \"[\" (%os/env {q}) \"]\")"),
            4 => format!("(%for n in ({q} {q}) (%os/env %n))"),
            _ => format!("(%os/env {})", q),
        };
        if i > 0 { doc += "\n"; }
        doc += &if target == "css" { format!("(p :content {})", if e.starts_with("(%define") || e.starts_with("(%for") { format!("(%os/env {})", q) } else { e }) }
            else { match r.below(5) { 0 => format!("(p {})", e), 1 => format!("(%raw {})", e), 2 if r.chance(30) => format!("(a :k (%os/env {}) b)", q), _ => e } };
        if r.chance(30) && target != "css" { doc += " tail"; }
    }
    c.put("/w/m.sex", doc);
    run.env = set.into_iter().map(|(k, v)| (k.into_bytes(), v)).collect();
    run.args.push(b"m.sex".to_vec());
    // Not where variables come from.
    if r.chance(40) {
        let t: String = names.iter().map(|n| format!("{}={}\n", n, r.pick(&["junk", "\"junk\"", ""]))).collect();
        for p in ["/w/.env", "/w/env", "/etc/environment", "/w/seam.env"] { if r.chance(70) { c.put(p, t.clone()); } }
    }
    let used: Vec<Vec<u8>> = run.env.iter().map(|e| e.0.clone()).collect();
    if r.chance(10) {
        let mut env = run.env.clone();
        let mut rounds = vec![];
        for _ in 0..2 + r.below(3) {
            let mut v = Run::new("round", &[]);
            v.env = env.clone();
            rounds.push(v);
            for i in (0..env.len()).rev() { match r.below(4) { 0 => { env.remove(i); }, 1 | 2 => env[i].1 = value(r).into_bytes(), _ => {} } }
        }
        c.runs.push(run);
        c.runs.extend(rounds);
        return;
    }
    c.runs.push(run);
    let mut v = Run::new("other variables", &[]);
    for k in ["SEAM_PATH", "SEAM_INCLUDE", "HOME", "LC_ALL", "RUST_LOG", "NO_COLOR", "CLICOLOR_FORCE", "PWD", "A", "a", "LANG", "PATH", "TERM", "TMPDIR", "SOURCE_DATE_EPOCH", "INCLUDE", "EMPTY"] {
        if r.chance(60) { v.env.push((k.as_bytes().to_vec(), value(r).into_bytes())); }
    }
    v.env.retain(|e| !used.contains(&e.0) && !names.iter().any(|n| n.as_bytes() == e.0));
    if r.chance(50) { v.env.push((b"JUNK".to_vec(), vec![0xff, 0xfe])); }
    if r.chance(50) { v.plain(format!("heap {} 99 {}", r.below(4), r.below(1000))); }
    c.runs.push(v);
}

/// The environment of the caller changes from build to build.
fn c16_rounds(x: &mut Cx, c: &Case, run: &Run) -> V {
    let Some(NodeKind::File(d)) = c.tree.get("/w/m.sex").map(|n| n.kind.clone()) else { return skip("no source") };
    let target = run.args.iter().find_map(|a| a.strip_prefix(b"--")).map(lossy).unwrap_or_default();
    let mut plan = String::new();
    let mut want = vec![];
    let mut before: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for r in c.runs.iter().filter(|r| r.label == "round") {
        for (n, v) in &r.env { if !before.contains(&(n.clone(), v.clone())) { plan += &format!("setenv {} {}\n", esc(n), esc(v)); want.push(None); } }
        for (n, _) in &before { if !r.env.iter().any(|e| e.0 == *n) { plan += &format!("unsetenv {}\n", esc(n)); want.push(None); } }
        plan += &format!("build {} 1 =m.sex {}\n", target, esc(&d));
        want.push(Some(x.model(c, &Run { env: r.env.clone(), ..run.clone() })?));
        before = r.env.clone();
    }
    if want.is_empty() { return skip("empty"); }
    let mut p = c.clone();
    p.kind = "probe".into();
    let (t, got) = probe(x, &p, &Run { args: vec![], env: vec![], ..run.clone() }, &plan)?;
    for (i, w) in want.iter().enumerate() {
        let Some(o) = w else { continue };
        let g = got.get(i).cloned().unwrap_or_default();
        if o.code != 0 && !g.starts_with("err ") || o.code == 0 && g != format!("ok {}", esc(&o.out[..o.out.len() - 1])) {
            return bad("environment changed", format!("step {} code {} out {:?}\ngot {}\nplan\n{}{}", i, o.code, lossy(&o.out), g, plan, t.summary()));
        }
    }
    x.st.hit("environment changed between builds");
    Ok(true)
}

fn c16_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    if c.runs.iter().any(|r| r.label == "round") { return c16_rounds(x, c, run); }
    let o = x.model(c, run)?;
    let t = x.go(c, run)?;
    x.exact(&t, &o)?;
    if let Some(at) = &o.at { if !locations(&t.stderr()).contains(at) { return bad("location", format!("expected a diagnostic at {:?} ({})\n{}", at, o.why, t.summary())); } }
    if let Some(v) = c.runs.get(1) {
        let u = x.go(c, &join(run, v))?;
        if let Some(d) = differs(&t, &u, false) { return bad("other variable", format!("{} differs with unrelated variables\n{}\n{}", d, t.summary(), u.summary())); }
    }
    // Whatever else the build asks for, set: it is no part of the document.
    let doc = c.tree.get("/w/m.sex").map(|n| match &n.kind { NodeKind::File(d) => lossy(d), _ => String::new() }).unwrap_or_default();
    let mut asked = asked(&t, run);
    asked.retain(|n| !doc.replace('\\', "").contains(n.as_str()));
    // Colours are no part of the text, and the local zone is none of this document.
    asked.retain(|n| !NEUTRAL.contains(&n.as_str()));
    for n in asked.iter().take(3) {
        for v in ["1", "/w", "html", "0"] {
            let mut u = run.clone();
            u.env.push((n.clone().into_bytes(), v.into()));
            let u = x.go(c, &u)?;
            if let Some(d) = differs(&t, &u, false) { return bad("other variable", format!("{} differs with ${} set to {}, which the document does not name\n{}\n{}", d, n, v, t.summary(), u.summary())); }
        }
        x.st.hit("other variable asked for");
    }
    if o.code != 0 { x.st.hit("variable missing or not Unicode"); } else { x.st.hit("value delivered"); }
    Ok(true)
}

/* ------------------------------------------------------------------ C17 -- */

fn data_value(r: &mut Rng, kind: usize, depth: u32) -> String {
    let w = if r.chance(4) { ["it's", "#no", "a: b"][r.below(3)] } else { ["alpha", "beta gamma", "é日本", "x", "", "yes-no", "a,b", "12ab"][r.below(8)] };
    match r.below(if depth > 2 { 5 } else { 8 }) {
        0 if r.chance(30) => format!("{}.{}", r.range(-40, 1000), [5, 25, 125, 1415926, 333333333, 7071067][r.below(6)]),
        0 if r.chance(20) => format!("{}", r.range(-400_000_000_000, 900_000_000_000)),
        0 => format!("{}", r.range(-1000, 1000)),
        1 => ["true", "false"][r.below(2)].into(),
        2 if kind != 2 => "null".into(),
        5 if kind != 1 => { let n = r.below(4); let v: Vec<String> = (0..n).map(|_| data_value(r, kind, depth + 1)).collect(); format!("[{}]", v.join(", ")) },
        6 if kind == 0 => { let n = 1 + r.below(3); let v: Vec<String> = (0..n).map(|i| format!("\"k{}\": {}", i, data_value(r, kind, depth + 1))).collect(); format!("{{{}}}", v.join(", ")) },
        6 if kind == 2 => format!("{{ in = {} }}", data_value(r, kind, 3)),
        _ => if kind == 1 && r.chance(50) && !w.is_empty() && !w.contains(['#', '\'']) { w.to_string() } else { format!("\"{}\"", w) },
    }
}

fn yaml_block(r: &mut Rng, ind: usize, depth: u32, keys: &mut Vec<String>, pre: &str) -> String {
    let mut s = String::new();
    // Now and then a long way down.
    let down = depth >= 1 && depth < 9 && r.chance(if depth < 2 { 12 } else { 80 });
    for i in 0..1 + r.below(if down { 1 } else { 3 }) {
        let k = format!("{}{}", ["key", "name", "tags", "K_", "key", "name", "tags", "K_", "key", "é"][r.below(10)], i);
        let full = format!("{}{}", pre, k);
        let pad = " ".repeat(ind);
        match if down { 3 } else { r.below(if depth > 1 { 3 } else { 7 }) } {
            5 => {
                // Maps in a list.
                s += &format!("{}{}:\n", pad, k);
                for j in 0..2 + r.below(2) {
                    s += &format!("{}  - n: {}\n{}    m: {}\n", pad, data_value(r, 1, 3), pad, data_value(r, 1, 3));
                    keys.push(format!("{}/{}/{}", full, j, ["n", "m"][r.below(2)]));
                }
            },
            3 => { s += &format!("{}{}:\n", pad, k); s += &yaml_block(r, ind + 2, depth + 1, keys, &format!("{}/", full)); },
            4 => {
                s += &format!("{}{}:\n", pad, k);
                for j in 0..1 + r.below(3) { s += &format!("{}  - {}\n", pad, data_value(r, 1, 3)); keys.push(format!("{}/{}", full, j)); }
            },
            _ => { s += &format!("{}{}: {}\n", pad, k, data_value(r, 1, 3)); keys.push(full); },
        }
    }
    s
}

/// Less common things the formats allow, with the names they define.
fn data_extra(r: &mut Rng, kind: usize, n: usize, keys: &mut Vec<String>) -> String {
    let (s, k): (String, &[&str]) = match kind {
        0 => {
            let v = [("{}", &[][..]), ("[]", &[]), ("[{}, \"b\"]", &["/1"]), ("[[], [1], 2]", &["/1/0", "/2"]), ("{\"a\": {}, \"b\": [null]}", &["/b/0"]), ("[{\"a\": 1, \"b\": []}, {\"a\": 2}]", &["/0/a", "/1/a"]),
                ("\"\\u00e9\\n\"", &[""]), ("-1.50e3", &[""]), ("[[[\"x\"]]]", &["/0/0/0"]), ("{\"\": 1, \"c d\": 2}", &[]), ("\"\"", &[""]),
                ("9007199254740993", &[""]), ("18446744073709551615", &[""]), ("18446744073709551616", &[""]), ("-9223372036854775809", &[""]), ("1E400", &[""]), ("1e-7", &[""]), ("-0", &[""]), ("0.1", &[""]), ("1e16", &[""]), ("123456789012345678901234", &[""]),
                ("\"\\ud83d\\ude00\"", &[""]), ("\"\\ud83d\"", &[""]), ("\"\\/\\b\\u0000\"", &[""]), ("01", &[]), ("+1", &[]), (".5", &[]), ("1.", &[]), ("[1,]", &["/0"]), ("NaN", &[]), ("TRUE", &[]), ("'a'", &[]), ("{\"a\": 1, \"a\": 2}", &["/a"]), ("\"a\tb\"", &[""])][r.below(34)];
            (format!("\"x{n}\": {}", v.0), v.1)
        },
        2 => {
            let v = [("= {}", &[][..]), ("= []", &[]), ("= [[], [1]]", &["/1/0"]), ("= { a = {}, b = [1, 2] }", &["/b/1"]), (".a.b = 1", &["/a/b"]), (".a = 1\nx.b = 2", &["/a"]), ("= \"\"\"\na\n b\"\"\"", &[""]), ("= 'c:\\d'", &[""]),
                ("= 1_000", &[""]), ("= 0xff", &[""]), ("= 1e3", &[""]), ("= -0.0", &[""]), ("= inf", &[""]), ("= 1979-05-27T07:32:00Z", &[""]), ("= 07:32:00.5", &[""]), ("= [\n  1, # one\n  2,\n]", &["/0", "/1"]),
                ("= 1e300", &[""]), ("= 9007199254740993", &[""]), ("= [{ a = 1 }, { a = 2 }]", &["/1/a"]), ("= 0.1", &[""])][r.below(20)];
            (format!("x{n}{}{}\n", if v.0.starts_with('=') { " " } else { "" }, v.0), v.1)
        },
        _ => {
            let v = [(" {}", &[][..]), (" []", &[]), ("\n- {}\n- b", &["/1"]), ("\n- []\n- [c]\n- d", &["/1/0", "/2"]), ("\n- - a\n  - b\n- c", &["/0/1", "/1"]), ("\n- k: 1\n  l:\n  - x\n  - y\n- z", &["/0/l/1", "/1"]), (" |\n  a\n   b\n", &[""]), (" >-\n  a\n  b", &[""]),
                ("", &[""]), (" # note", &[""]), (" ~", &[""]), (" 'it''s'", &[""]), (" &anchor v", &[""]), (" *nowhere", &[]), (" {a: 1, b: {c: [2, 3]}}", &["/a", "/b/c/1"]), (" \"a\\tb\\u00e9\"", &[""]), ("\n  deep:\n    deeper:\n      - {q: 1}\n      -\n", &["/deep/deeper/0/q", "/deep/deeper/1"]),
                ("\n-\n- b", &["/0", "/1"]), (" a\n  b", &[""]), (" - b", &[]), (" a: b", &[]), ("\n? [a]\n: b", &[]), (" !!str 5", &[]), ("\n---\ny: 1", &[]), ("\n...", &[]), (" @x", &[]), ("\n  - - - z", &["/0/0/0"]), (" 1_0", &[""]), (" 0o7", &[""]),
                (" 9007199254740993", &[""]), (" 18446744073709551616", &[""]), (" 0xff", &[""]), (" 1e3", &[""]), (" .5", &[""]), (" .inf", &[""]), (" -0", &[""]), (" 0.10", &[""]), (" 2024-01-02", &[""]), (" 12:30:45", &[""]), (" +5", &[""]), (" 007", &[""]), (" Yes", &[""]), (" \"a\\\n  b\"", &[""]), (" |+\n  a\n\n", &[""]), (" >\n  a\n\n  b\n", &[""]), (" \ta", &[""])][r.below(46)];
            (format!("x{n}:{}\n", v.0), v.1)
        },
    };
    if kind != 2 || !s.contains(".a") { for k in k { keys.push(format!("x{n}{k}")); } } else { for k in k { keys.push(format!("x{n}{}", k.replace("x/", ""))); } }
    s
}

fn c17_make(r: &mut Rng, c: &mut Case) {
    let kind = r.below(4);
    let mut keys: Vec<String> = vec![];
    let extras = if r.chance(45) { 1 + r.below(2) } else { 0 };
    let mut text = match kind {
        0 => {
            let mut v = vec![];
            for i in 0..1 + r.below(4) { let x = data_value(r, 0, 0); if !x.starts_with(['[', '{']) { keys.push(format!("k{}", i)); } else if x.starts_with('[') && x.len() > 2 && !x.starts_with("[[") && !x.starts_with("[{") { keys.push(format!("k{}/0", i)); } v.push(format!("\"k{}\":{}{}", i, if r.chance(93) { " " } else { "" }, x)); }
            for n in 0..extras { let e = data_extra(r, 0, n, &mut keys); let i = r.below(v.len() + 1); v.insert(i, e); }
            format!("{{{}}}", v.join(if r.chance(50) { ",\n  " } else { ", " }))
        },
        1 => { let mut s = yaml_block(r, 0, 0, &mut keys, ""); for n in 0..extras { let e = data_extra(r, 1, n, &mut keys); s = if r.chance(50) { s + &e } else { e + &s }; } s },
        2 => {
            let mut s = String::new();
            for n in 0..extras { s += &data_extra(r, 2, n, &mut keys); }
            for i in 0..1 + r.below(3) { s += &format!("k{} = {}\n", i, data_value(r, 2, 1)); }
            for i in 0..3 { if s.contains(&format!("k{} = ", i)) && !s.contains(&format!("k{} = [", i)) && !s.contains(&format!("k{} = {{", i)) { keys.push(format!("k{}", i)); } }
            if r.chance(60) { s += &format!("[tab]\nx = {}\n", data_value(r, 2, 3)); keys.push("tab/x".into()); }
            if r.chance(30) { s += "[[arr]]\nn = 1\n[[arr]]\nn = 2\n"; keys.push("arr/1/n".into()); }
            s
        },
        _ if r.chance(70) => { let mut s = yaml_block(r, 0, 0, &mut keys, ""); for n in 0..extras { s += &data_extra(r, 1, n, &mut keys); } format!("---\n{}---\nBody text\n", s) },
        _ => { keys.push("t0".into()); keys.push("tab/x".into()); format!("+++\nt0 = {}\n[tab]\nx = {}\n+++\nBody text\n\nand more\n", ["1", "\"a\"", "true"][r.below(3)], data_value(r, 2, 3)) },
    };
    if kind == 1 && r.chance(10) { text = format!("---\n{}", text); }
    let call = ["json", "yaml", "toml", "markdown"][kind];
    let mut only = if kind == 3 { [" :only frontmatter", " :only frontmatter", "", "", " :only content"][r.below(5)] } else { "" }.to_string();
    if r.chance(20) {
        let sep = *r.pick(&["-", ".", "_", "+", "::", "//", "\u{e9}"]);
        only += &format!(" :separator \"{}\"", sep);
        for k in &mut keys { *k = k.replace('/', sep); }
    }
    // Torn: cut short, or blocks lost, doubled, overwritten.
    let mut bytes = text.into_bytes();
    match r.below(10) {
        0 | 1 => {},
        2..=5 => { let k = r.below(bytes.len() + 1); bytes.truncate(k); },
        6 => {
            // The end of an older, longer file is still there; or the last line lost its end.
            if r.chance(50) { bytes.extend(r.pick(&[&b"}"[..], b"]", b"\"", b"[", b"{\"a\": 1}", b"[tab", b"k = ", b"x", b"= 1", b"\n]", b"\"\n", b"\n[[arr", b"\n}"]).iter()); }
            else { while bytes.last() == Some(&b'\n') { bytes.pop(); } let k = r.below(4).min(bytes.len()); bytes.truncate(bytes.len() - k); }
        },
        7 if r.chance(50) => match r.below(4) {
            // Written elsewhere.
            0 => { let mut b = "\u{feff}".as_bytes().to_vec(); b.extend(&bytes); bytes = b; },
            1 => bytes = lossy(&bytes).replace('\n', "\r\n").into_bytes(),
            2 => { let mut b = vec![b'\n'; 1 + r.below(2)]; b.extend(&bytes); bytes = b; },
            _ => bytes.extend(b"\n\n \n"),
        },
        8 if r.chance(35) => {
            // Something no one can see.
            let mut t = lossy(&bytes);
            for _ in 0..1 + r.below(2) {
                let mut k = r.below(t.len() + 1);
                while !t.is_char_boundary(k) { k -= 1; }
                let n = if kind == 3 { 1 + r.below(3) } else { r.below(13) };
                t.insert_str(k, ["\0", "\u{1a}", "\u{4}", "\u{7f}", "\u{85}", "\u{a0}", "\u{feff}", "\u{2028}", "\u{200b}", "\u{c}", "\u{1b}[0m", "\r", "\t"][n]);
            }
            bytes = t.into_bytes();
        },
        _ => bytes = damage(r, &bytes),
    }
    let mut run = Run::new("base", &["--text"]);
    c.put(&format!("/w/d.{}", call), bytes.clone());
    let how = if kind == 3 && !only.contains("only f") { 0 } else { r.below(4) };
    let mut doc = match how {
        0 => format!("(%define all (%{call} (%embed \"d.{call}\"){only}))\n"),
        1 => format!("(%{call} (%embed \"d.{call}\"){only})\n"),
        2 => format!("(%define t (%embed \"d.{call}\"))\n(%{call} %t{only})\n"),
        _ => format!("start (%{call} (%embed \"d.{call}\"){only})\n"),
    };
    if r.chance(25) && how != 1 {
        // Known by another value already.
        for k in &keys { if r.chance(50) && !k.contains(['"', ' ']) { let q = format!("(%define {k} old{})\n", r.below(9)); doc.insert_str(0, &q); } }
    }
    if r.chance(12) {
        // Two imports, one over the other.
        let k = keys.first().cloned().unwrap_or("k0".into());
        let two = [format!("{{\"{k}\": \"second\", \"only2\": [1, 2]}}"), format!("{k}: second\nonly2: [1, 2]\n"), format!("\"{k}\" = 'second'\nonly2 = [1, 2]\n"), format!("---\n{k}: second\nonly2: [1, 2]\n---\n")];
        let m = r.below(4);
        c.put("/w/two", two[m].clone());
        let q = format!("(%define more (%{} (%embed two){}))\n", ["json", "yaml", "toml", "markdown"][m], if m == 3 { " :only frontmatter" } else { "" });
        if r.chance(50) { doc += &q; } else { doc.insert_str(0, &q); }
        keys.push("only2/1".into());
    }
    for k in &keys { doc += &if r.chance(60) { format!("<%{k}>\n").replace('<', "(v ").replace('>', ")") } else { format!("(%ifdef {k} (v %{k}) missing)\n") }; }
    c.put("/w/m.sex", doc);
    run.args.push(b"m.sex".to_vec());
    if r.chance(15) { run.fault("read", &format!("/w/d.{call}"), 1, -1, 5); }
    if r.chance(25) { run.dirs.push(Dir::Chunk("*".into(), plan(r))); }
    if r.chance(25) { run.plain(format!("heap {} 99 {}", r.below(4), r.below(1000))); run.plain(format!("random {}", r.below(1000))); }
    c.runs.push(run);
}

fn c17_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let o = x.model(c, run)?;
    let t = x.go(c, run)?;
    x.exact(&t, &o)?;
    if o.code != 0 { x.st.hit(&format!("import failed: {}", o.why)); } else { x.st.hit("import complete"); }
    Ok(true)
}

/* ------------------------------------------------------------------ C18 -- */

fn is_source(a: &[u8]) -> bool { !a.starts_with(b"-") }

fn at_root(n: &str) -> String { if n.starts_with('/') { norm_path(n) } else { norm_path(&format!("/w/{}", n)) } }

fn c18_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    if r.chance(15) { f.err = 3; }
    let mut o = Opt::new(f);
    o.docs = 4; o.stdin = 30; o.zone = 5;
    let mut run = world(c, r, &o);
    // The first source opens a file; what changes then, changes while it is built.
    let first = run.args.iter().find(|a| is_source(a)).map(|a| at_root(&lossy(a))).unwrap_or_default();
    if r.chance(40) {
        if let Some(NodeKind::File(d)) = c.tree.get(&first).map(|n| n.kind.clone()) {
            c.put("/w/mk", "");
            c.put(&first, format!("{}\n(%define _mk (%embed \"/w/mk\"))\n", lossy(&d)));
            let names: Vec<String> = run.args.iter().filter(|a| is_source(a)).map(|a| at_root(&lossy(a))).collect();
            let p = if r.chance(80) { r.pick(&names).clone() } else { "/w/late.sex".into() };
            let act = match r.below(4) { 0 | 1 => Act::Del(p.clone()), 2 => Act::Set(p.clone(), b"(replaced text)".to_vec()), _ => Act::Write(p.clone(), b"rewritten".to_vec()) };
            run.dirs.push(Dir::Mut { op: "open".into(), path: "/w/mk".into(), nth: 1, act });
            if p == "/w/late.sex" { run.args.push(b"late.sex".to_vec()); }
        }
    }
    // What standard input holds matters only if it is asked for.
    if run.stdin.is_empty() && r.chance(50) { run.stdin = [&b"from standard input"[..], b"(%nonesuch)", b"\xff", b"(((", b"(%log msgx)"][r.below(5)].to_vec(); }
    if !run.args.iter().any(|a| a == b"-") && r.chance(40) { run.fault("read", "<stdin>", 1, -1, 5); }
    if r.chance(5) { run.stdin = [&b""[..], b"\n", b" ", b"; nothing\n"][r.below(4)].to_vec(); run.args.push(b"-".to_vec()); }
    if r.chance(15) { run.args.retain(|a| !is_source(a)); }
    if r.chance(5) { named_again(r, c, &mut run); }
    if r.chance(6) {
        // A name that says what is in it.
        let i: Vec<usize> = (0..run.args.len()).filter(|i| is_source(&run.args[*i])).collect();
        if !i.is_empty() {
            let i = *r.pick(&i);
            let n = format!("{}.{}{}", r.pick(&["page", "a b", ".x"]), r.pick(&["html", "css", "xml", "text", "sexp", "txt", "HTML", "htm"]), r.pick(&["", ".sex", ".SEX"]));
            if let Some(v) = c.tree.get(&at_root(&lossy(&run.args[i]))).cloned() { c.tree.insert(format!("/w/{}", n), v); run.args[i] = n.into_bytes(); }
            if r.chance(60) { run.args.retain(|a| !a.starts_with(b"--")); }
        }
    }
    if r.chance(10) {
        // Other programs would see another name in it, or several.
        let v: Vec<String> = run.args.iter().filter(|a| is_source(a)).map(|a| lossy(a)).collect();
        let n = if v.is_empty() { "m0.sex".to_string() } else { r.pick(&v).clone() };
        for l in ["list", "m.list"] { if r.chance(60) { c.put(&format!("/w/{}", l), format!("{}\n", r.pick(&[n.clone(), "--html".into(), "-v".into(), "-Iinc".into(), "absent".into()]))); } }
        let a = match r.below(16) {
            0 | 1 => "@list".to_string(), 2 => format!("@{n}"), 3 => format!("{}*", n.chars().take(n.chars().count() / 2).collect::<String>()), 4 => "*.sex".into(), 5 => "*".into(), 6 => format!("file:{n}"),
            7 => format!("file://{}", at_root(&n)), 8 => format!("{n}:1"), 9 => format!("~/{n}"), 10 => format!("$PWD/{n}"), 11 => format!("{n},{n}"), 12 => format!("{n} {n}"), 13 => match r.below(6) { 0 | 1 => format!("\"{n}\""), 2 => format!("'{n}'"), 3 => format!("{n} "), 4 => format!("<{n}>"), _ => format!("=({n})") },
            14 => n.trim_end_matches(".sex").to_string(), _ => n.replacen('.', "?", 1),
        };
        // Perhaps there is such a file all the same.
        if r.chance(15) && !a.contains('/') && !a.is_empty() { c.put(&format!("/w/{}", a), "this one"); }
        if r.chance(30) { run.env.push((b"PWD".to_vec(), b"/w".to_vec())); run.env.push((b"HOME".to_vec(), b"/w".to_vec())); }
        let i = r.below(run.args.len() + 1);
        run.args.insert(i, a.into_bytes());
    }
    for _ in 0..r.below(3) {
        let a: Vec<u8> = match r.below(18) {
            0..=2 => format!("--{}", r.pick(&TARGETS)).into_bytes(),
            3 | 4 => [&b"--nodoc"[..], b"--nodocument"][r.below(2)].to_vec(),
            5 | 6 => [&b"-Iinc"[..], b"-I.", b"-I/abs/x", b"-Iin c", b"-Inowhere", b"-Ia-b", b"-Iinc/", b"-I", b"-I", b"-I-", b"-I--text"][r.below(11)].to_vec(),
            7 | 8 => b"-".to_vec(),
            9..=11 => { let v: Vec<Vec<u8>> = run.args.iter().filter(|a| is_source(a)).cloned().collect(); if v.is_empty() { continue; } r.pick(&v).clone() },
            12 => [&b"--htm"[..], b"--", b"--HTML", b"--html=1", b"-x", b"-html", b"--nodocs", b"---", b"-i", b"--v", b"--help", b"--text ", b"-V"][r.below(13)].to_vec(),
            13 => [&b"absent.sex"[..], b"m0.sexx", b"nowhere/m0.sex", b"m0.sex/", b"", b"", b" ", b".", b"..", b"/", b"inc", b"m0.sex\n", b"M0.SEX", b"m0"][r.below(14)].to_vec(),
            14 => [&b"na\xffme"[..], b"-I\xfe", b"--te\xe9xt", b"-\xc3"][r.below(4)].to_vec(),
            15 => b"-v".to_vec(),
            16 => { let v: Vec<usize> = (0..run.args.len()).filter(|i| run.args[*i].starts_with(b"--")).collect(); if !v.is_empty() { let i = *r.pick(&v); run.args.remove(i); } continue },
            _ => {
                let v: Vec<String> = run.args.iter().filter(|a| is_source(a)).map(|a| at_root(&lossy(a))).collect();
                if v.is_empty() { continue; }
                let p = r.pick(&v).clone();
                match r.below(4) {
                    0 => run.fault("stat", &p, 1, -1, *r.pick(&[13, 5, 40])),
                    1 => run.overlay.push((p, Some(VNode::link("/nowhere/at/all")))),
                    2 => run.overlay.push((p, Some(if r.chance(60) { VNode::dir() } else { VNode { kind: NodeKind::Sock, ..VNode::dir() } }))),
                    _ => run.overlay.push((p, None)),
                }
                continue
            },
        };
        let i = r.below(run.args.len() + 1);
        run.args.insert(i, a);
    }
    c.runs.push(run.clone());
    // The same with the options elsewhere: sources among themselves, directories
    // among themselves and targets among themselves stay in order.
    let kind = |a: &[u8]| if is_source(a) { 0 } else if a.starts_with(b"-I") { 1 } else { 2 };
    let mut parts: Vec<std::collections::VecDeque<Vec<u8>>> = (0..3).map(|k| run.args.iter().filter(|a| kind(a) == k).cloned().collect()).collect();
    let mut v = Run::new("rearranged", &[]);
    loop {
        let k: Vec<usize> = (0..3).filter(|k| !parts[*k].is_empty()).collect();
        if k.is_empty() { break; }
        let k = *r.pick(&k);
        v.args.push(parts[k].pop_front().unwrap());
    }
    c.runs.push(v);
}

fn c18_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let opens = |t: &Trace| t.evs.iter().any(|e| matches!(e, Ev::Read { path, .. } if path == "<stdin>"));
    let clean = |t: &Trace, why: &str| -> Result<(), Verdict> {
        failed_clean(t, why)?;
        if t.code() != 1 { return bad("status", format!("{}\n{}", why, t.summary())); }
        // Nothing is built: no source is opened.
        Ok(())
    };
    let t = x.go(c, run)?;
    if let Some(v) = run.args.iter().position(|a| a == b"-v") {
        // A version number, unless something before it is wrong.
        let mut before = run.clone();
        before.args.truncate(v);
        before.args.push(b"--text".to_vec());
        if before.args.iter().any(|a| std::str::from_utf8(a).is_err()) { clean(&t, "argument not Unicode")?; return Ok(true); }
        let wrong = bad_argument(c, &before);
        if wrong.is_some() { clean(&t, "bad argument")?; return Ok(true); }
        if let Some(w) = t.crash() { return bad("crash", format!("{}\n{}", w, t.summary())); }
        if t.code() != 0 || !t.out.is_empty() || t.err.is_empty() || opens(&t) { return bad("version", t.summary()); }
        x.st.hit("version");
        return Ok(true);
    }
    if let Some(why) = bad_argument(c, run) {
        clean(&t, &why)?;
        if opens(&t) { return bad("standard input", format!("read although {}\n{}", why, t.summary())); }
        x.st.hit(&format!("refused: {}", why));
        return Ok(true);
    }
    let o = x.model(c, run)?;
    x.exact(&t, &o)?;
    let asked = run.args.iter().any(|a| a == b"-") || !run.args.iter().any(|a| is_source(a));
    if !asked && opens(&t) { return bad("standard input", format!("read although not asked for\n{}", t.summary())); }
    if o.muts > 0 { x.st.hit("sources changed after the command line was read"); }
    if let Some(v) = c.runs.get(1) {
        let mut u = run.clone();
        let mut sorted = (u.args.clone(), v.args.clone());
        sorted.0.sort(); sorted.1.sort();
        if sorted.0 != sorted.1 { return Ok(true); } // shrunk apart
        u.args = v.args.clone();
        let seq = |a: &[Vec<u8>], f: &dyn Fn(&[u8]) -> bool| -> Vec<Vec<u8>> { a.iter().filter(|a| f(a)).cloned().collect() };
        for f in [&is_source as &dyn Fn(&[u8]) -> bool, &|a: &[u8]| a.starts_with(b"-I"), &|a: &[u8]| a.starts_with(b"--") && a != b"--nodoc" && a != b"--nodocument"] {
            if seq(&run.args, f) != seq(&u.args, f) { return Ok(true); }
        }
        let w = x.go(c, &u)?;
        if let Some(d) = differs(&t, &w, true) { return bad("order of options", format!("{} differs\n{}\nrearranged: {}", d, t.summary(), w.summary())); }
        if u.args != run.args { x.st.hit("options rearranged"); }
    }
    Ok(run.args.len() > 2)
}

/// What is wrong with the command line, before anything is built.
fn bad_argument(c: &Case, run: &Run) -> Option<String> {
    let w = crate::model::world::World::new(c, run);
    let mut target = false;
    for a in &run.args {
        let Ok(a) = std::str::from_utf8(a) else { return Some("argument not Unicode".into()) };
        if let Some(o) = a.strip_prefix("--") {
            match o { "text" | "sexp" | "html" | "xml" | "css" => target = true, "nodoc" | "nodocument" => {}, _ => return Some("unknown option".into()) }
        } else if a.starts_with('-') {
            if a != "-" && a != "-v" && !a.starts_with("-I") { return Some("unknown option".into()); }
        } else if !w.exists(a) { return Some("source not found".into()); }
    }
    if target { None } else { Some("no target".into()) }
}

/* ------------------------------------------------------------------ C19 -- */

fn c19_make(r: &mut Rng, c: &mut Case) {
    let mut f = Feats::all();
    f.loose = true;
    f.log = true;
    if r.chance(50) { f.err = 4; }
    let mut o = Opt::new(f);
    o.docs = 3; o.zone = 15; o.huge = 2;
    let mut run = world(c, r, &o);
    let paths: Vec<String> = files(c);
    for _ in 0..if r.chance(50) { 1 + r.below(2) } else { 0 } {
        let p = r.pick(&paths).clone();
        match r.below(7) {
            0 | 1 => run.fault("open", &p, 1, -1, *r.pick(&[2, 13, 5, 24, 40])),
            2 | 3 => run.fault("read", &p, 1, -1, *r.pick(&[5, 116, 21])),
            4 => run.overlay.push((p.clone(), Some(if r.chance(60) { VNode::dir() } else { VNode { kind: NodeKind::Sock, ..VNode::dir() } }))),
            5 => { let d = match c.tree.get(&p).map(|n| &n.kind) { Some(NodeKind::File(d)) => d.clone(), _ => vec![] }; run.overlay.push((p.clone(), Some(VNode::file(damage(r, &d))))); },
            _ => run.overlay.push((p.clone(), None)),
        }
    }
    if r.chance(15) {
        // Directories that do not let themselves be listed.
        let dirs: Vec<String> = crate::model::build_all(c, &run).map_or(vec![], |m| m.touched.iter().filter(|p| p.len() > 3 && (matches!(c.tree.get(*p).map(|n| &n.kind), Some(NodeKind::Dir)) || paths.iter().any(|f| f.starts_with(&format!("{}/", p))))).cloned().collect());
        if !dirs.is_empty() {
            let d = r.pick(&dirs).clone();
            if r.chance(60) { run.fault("opendir", &d, 1, -1, *r.pick(&[13, 5, 24, 23, 12])); } else { run.fault("readdir", &d, 1, -1, 5); }
        }
    }
    // Names that no file has.
    if r.chance(10) { let i = r.below(run.args.len()) + 1; run.args.insert(i, [&b".."[..], b".", b"/", b"na\xffme.sex", b"docs/..", b"m0.sex/", b"m0.sex/..", b"", b"no such", b"\xf0\x9f", b"a\nb"][r.below(11)].to_vec()); }
    if r.chance(4) {
        // One whose name is no text.
        let i: Vec<usize> = (0..run.args.len()).filter(|i| is_source(&run.args[*i])).collect();
        if !i.is_empty() {
            let i = *r.pick(&i);
            let p = at_root(&lossy(&run.args[i]));
            let n = [&b"na\xffme.sex"[..], b"\xe9t\xe9", b"docs/\x80.sex", b"\xc3\x28/m0.sex"][r.below(4)];
            if let Some(v) = c.tree.get(&p).cloned() { c.tree.insert(at_root(&name(n)), v); run.args[i] = n.to_vec(); }
        }
    }
    if r.chance(25) { run.plain(format!("heap {} 99 {}", r.below(4), r.below(1000))); run.plain(format!("random {}", r.below(1000))); }
    c.runs.push(run);
    c.set("how", ["file", "file", "build", "stream"][r.below(4)]);
    if r.chance(20) { c.set("split", r.below(4).to_string()); }
    c.set("script", plan(r).iter().map(|n| n.to_string()).collect::<Vec<_>>().join(","));
}

fn c19_check(x: &mut Cx, c: &Case) -> V {
    let Some(run) = c.runs.first() else { return skip("empty") };
    let names: Vec<Vec<u8>> = run.args.iter().filter(|a| is_source(a)).cloned().collect();
    let Some(target) = run.args.iter().filter_map(|a| a.strip_prefix(b"--")).map(|a| lossy(a)).filter(|a| !a.starts_with("nodoc")).last() else { return skip("no target") };
    let doc = if run.args.iter().any(|a| a.starts_with(b"--nodoc")) { 0 } else { 1 };
    let incs: Vec<String> = run.args.iter().filter_map(|a| a.strip_prefix(b"-I")).map(esc).collect();
    let incs = format!(" {}", split_incs(&incs, c));
    let incs = incs.trim_end();
    let how = c.param("how");
    // The command, one source at a time.
    let mut plan = String::new();
    let mut want = vec![];
    let mut silent = vec![];
    for n in &names {
        let mut one = run.clone();
        one.args.retain(|a| !is_source(a));
        let data = match run.overlay.iter().rev().find(|o| o.0 == at_root(&name(n))).map(|o| o.1.clone()).unwrap_or(c.tree.get(&at_root(&name(n))).cloned()).map(|n| n.kind) {
            Some(NodeKind::File(d)) if !n.ends_with(b"/") => Some(d),
            _ => None,
        };
        let text = data.and_then(|d| String::from_utf8(d).ok());
        match (how, text) {
            // The command has no such name for it.
            (_, Some(d)) if std::str::from_utf8(n).is_err() => { plan += &format!("file {} {} {}{}\n", target, doc, esc(n), incs); one.stdin = d.into_bytes(); one.args.push(b"-".to_vec()); },
            ("build", Some(d)) => { plan += &format!("build {} {} {} {}{}\n", target, doc, esc(n), esc(d.as_bytes()), incs); one.args.push(n.clone()); if run.dirs.iter().any(|f| matches!(f, Dir::Fault { path, .. } if *path == at_root(&name(n)))) { return skip("source faulted"); } },
            ("stream", Some(d)) => { plan += &format!("stream {} {} {} {}{}\n", target, doc, if c.param("script").is_empty() { "1" } else { c.param("script") }, esc(d.as_bytes()), incs); one.stdin = d.into_bytes(); one.args.push(b"-".to_vec()); },
            _ => { plan += &format!("file {} {} {}{}\n", target, doc, esc(n), incs); one.args.push(n.clone()); },
        }
        let t = x.go(c, &one)?;
        if let Some(w) = t.crash() { return skip(&w); }
        silent.push(crate::model::build_all(c, &one).map_or(false, |o| o.logs.is_empty()));
        want.push(t);
    }
    if want.is_empty() { return skip("no source"); }
    let mut host = c.clone();
    host.kind = "probe".into();
    let mut lib = run.clone();
    lib.args.clear();
    let (t, got) = probe(x, &host, &lib, &plan)?;
    let note = |i: usize| format!("source {}\ncommand: {}\nlibrary: {}\n{}", i, want[i].summary(), got.get(i).cloned().unwrap_or_default(), t.summary());
    // The caller goes on, whatever came of a build.
    if t.code() != 0 || got.len() != want.len() { return bad("caller stopped", note(got.len().min(want.len() - 1))); }
    let flat = |s: &str| plain(s).split_whitespace().collect::<Vec<_>>().join(" ");
    let mut rest = flat(&lossy(&t.err));
    let nameless = names.iter().any(|n| std::str::from_utf8(n).is_err());
    for (i, w) in want.iter().enumerate() {
        let g = &got[i];
        if std::str::from_utf8(&names[i]).is_err() {
            if let Some(s) = g.strip_prefix("ok ") {
                let mut s = unesc(s).unwrap_or_default();
                s.push(b'\n');
                if w.code() == 0 && s != w.out && !lambda_named(&s) { return bad("output", note(i)); }
            } else if g != "io" && !g.starts_with("err ") { return bad("crash", note(i)); }
            x.st.hit("a source whose name is not text");
            continue;
        }
        let err = flat(&lossy(&w.err));
        let mut said = err.clone();
        if let Some(s) = g.strip_prefix("ok ") {
            let mut s = unesc(s).unwrap_or_default();
            s.push(b'\n');
            if w.code() != 0 { return bad("status", note(i)); }
            if s != w.out { return bad("output", note(i)); }
            x.st.hit("built");
        } else {
            if w.code() == 0 { return bad("status", note(i)); }
            if let Some(e) = g.strip_prefix("err ") {
                let e = flat(&lossy(&unesc(e).unwrap_or_default()));
                if e.is_empty() { return bad("silent", note(i)); }
                let Some(s) = err.strip_suffix(e.as_str()) else { return bad("error", note(i)) };
                said = s.to_string();
                x.st.hit("error returned");
            } else if g == "io" { said = String::new(); x.st.hit("read error returned"); }
            else { return bad("crash", note(i)); }
        }
        if nameless { continue; }
        // Nothing but the messages of %log.
        let k = said.trim();
        if silent[i] && !k.is_empty() { return bad("messages", note(i)); }
        match rest.strip_prefix(k) { Some(s) => rest = s.trim_start().to_string(), None => return bad("messages", note(i)) }
    }
    if !nameless && !rest.is_empty() { return bad("messages", note(want.len() - 1)); }
    Ok(true)
}

/* ---------------------------------------------------------------- table -- */

macro_rules! prop {
    ($id:literal, $make:ident, $check:ident, $quick:literal, $thorough:literal, $coupled:literal, $rule:literal) => {
        Prop { id: $id, make: $make, check: $check, rule: $rule, quick: $quick, thorough: $thorough, coupled: $coupled }
    };
}

pub const PROPS: &[Prop] = &[
    prop!("C01", c01_make, c01_check, 16000, 640000, false, "a document tree built once plainly and three times under other hash seeds, heap layouts, reuse and poison, directory orders and read sizes; non-trivial: over 100 allocations and some output or diagnostic"),
    prop!("C02", c02_make, c02_check, 15000, 600000, false, "a document read as a file, from standard input and through a caller's stream in pieces, with interruptions, cut characters and errors; non-trivial: several reads delivered the source, or the fault fired"),
    prop!("C03", c03_make, c03_check, 50000, 2000000, false, "a document tree in which files the build needs cannot be opened or read or are not text; non-trivial: a fault fired or a file was replaced"),
    prop!("C04", c04_make, c04_check, 10000, 400000, false, "documents written to a standard output with short, interrupted and failing writes; non-trivial: a write failed or was split"),
    prop!("C05", c05_make, c05_check, 60000, 2400000, false, "a matrix of include candidates, each missing, readable, unreadable, a directory, a link or not text, under include directories spelled in many ways; non-trivial: more than one file opened or a fault fired"),
    prop!("C06", c06_make, c06_check, 38000, 1520000, true, "documents with includes against the same with the text in place, files replaced between evaluations, embeds byte for byte; non-trivial: an include was written out or evaluated"),
    prop!("C07", c07_make, c07_check, 48000, 1920000, false, "a valid document tree with one file cut, flipped, or with blocks lost, doubled or overwritten, at rest or while it is read; every case is non-trivial"),
    prop!("C08", c08_make, c08_check, 25000, 1000000, false, "a tree generated into a sink that refuses the k-th piece for up to 60 k; non-trivial: at least two refusals"),
    prop!("C09", c09_make, c09_check, 14000, 560000, false, "several builds in one process, in sequence, repeated, failing, and in threads under a seeded scheduler, against each build alone; non-trivial: more than one build"),
    prop!("C10", c10_make, c10_check, 55000, 2200000, false, "a directory tree listed under seeded entry orders, with entries vanishing and failing examinations; non-trivial: a directory was opened"),
    prop!("C11", c11_make, c11_check, 50000, 2000000, false, "dates and timestamps under seeded clocks, clock jumps and time zones around their changes; non-trivial: the clock was read or something printed"),
    prop!("C12", c12_make, c12_check, 48000, 1920000, false, "a document tree with one failing construct anywhere, or a file that cannot be read; non-trivial: the place is not the first character"),
    prop!("C13", c13_make, c13_check, 30000, 1200000, false, "documents with log calls against the same without, under a standard error with short, interrupted and failing writes; non-trivial: at least one message"),
    prop!("C14", c14_make, c14_check, 38000, 1520000, false, "documents with includes, listings and faults, small descriptor limits; every call to the outside recorded; non-trivial: files were opened"),
    prop!("C15", c15_make, c15_check, 11000, 440000, false, "several documents, the process killed or memory refused at three points of each run; non-trivial: there is output"),
    prop!("C16", c16_make, c16_check, 34000, 1360000, false, "environments of odd names and values with unrelated variables around them; every case is non-trivial"),
    prop!("C17", c17_make, c17_check, 90000, 3600000, false, "data files cut at a random byte or damaged by lost, doubled or overwritten blocks; every case is non-trivial"),
    prop!("C18", c18_make, c18_check, 40000, 1600000, false, "command lines with options anywhere, wrong ones, sources that are absent, cannot be examined, vanish or change after the first was begun, and a standard input nobody asked for; non-trivial: more than two arguments"),
    prop!("C19", c19_make, c19_check, 25000, 1000000, false, "sources built by a caller of the library and by the command, under open and read errors and damaged files; every case is non-trivial"),
];

pub fn find(id: &str) -> Option<&'static Prop> { PROPS.iter().find(|p| p.id == id) }

//! Deterministic simulation of the seam command and library.
mod case; mod cx; mod exec; mod gen; mod model; mod props; mod setup; mod shrink; mod stats; mod util;
use case::Case;
use cx::*;
use props::*;
use stats::Stats;
use std::io::{BufRead, Write};
use std::path::PathBuf;
use std::time::{Duration, Instant};
use util::*;

struct Opts { prop: String, tier: String, seed: u64, bin: PathBuf, out: PathBuf, jobs: u64, worker: Option<u64>, replay: Option<PathBuf>, cases: Option<u64>, limit: u64, from: u64, known: PathBuf }

fn opts() -> Opts {
    let mut o = Opts { prop: String::new(), tier: "quick".into(), seed: 1, bin: ".build/bin".into(), out: ".".into(), jobs: 8, worker: None, replay: None, cases: None, limit: 0, from: 0, known: "known-findings.txt".into() };
    let mut a = std::env::args().skip(1);
    while let Some(k) = a.next() {
        let v = a.next().unwrap_or_default();
        match k.as_str() {
            "--property" => o.prop = v,
            "--tier" => o.tier = v,
            "--seed" => o.seed = v.parse().unwrap_or_else(|_| fnv(v.as_bytes())),
            "--bin" => o.bin = std::fs::canonicalize(&v).unwrap_or(v.into()),
            "--out" => o.out = v.into(),
            "--jobs" => o.jobs = v.parse().unwrap(),
            "--worker" => o.worker = v.parse().ok(),
            "--replay" => o.replay = Some(v.into()),
            "--cases" => o.cases = v.parse().ok(),
            "--limit" => o.limit = v.parse().unwrap(),
            "--from" => o.from = v.parse().unwrap(),
            "--known" => o.known = v.into(),
            _ => { eprintln!("unknown option {}", k); std::process::exit(2); },
        }
    }
    if let Ok(b) = std::fs::canonicalize(&o.bin) { o.bin = b; }
    o
}

fn scratch(tag: &str) -> PathBuf { PathBuf::from(format!("/dev/shm/seamsim-{}-{}", std::process::id(), tag)) }

struct Scratch(PathBuf);
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn make(p: &Prop, seed: u64, i: u64) -> Case {
    let mut c = Case::new(p.id, seed, i);
    let mut r = Rng::derive(seed, p.id, i);
    (p.make)(&mut r, &mut c);
    setup::coarse(&mut c);
    c
}

/// Verdict of one case, its signature, and trouble with the machinery.
fn judge(p: &Prop, ex: &mut exec::Exec, st: &mut Stats, c: &Case) -> (Verdict, u64, Option<String>) {
    let mut x = Cx { ex, st, digests: vec![], fired: 0, trouble: None };
    let v = match (p.check)(&mut x, c) { Ok(n) => Verdict::Fine(n), Err(v) => v };
    let sig = x.digests.iter().fold(0xabcdu64, |a, d| mix(a ^ d));
    (v, sig, x.trouble)
}

fn worker(o: &Opts, p: &Prop, w: u64) -> i32 {
    let dir = Scratch(scratch(&format!("w{}", w)));
    let mut ex = match exec::Exec::new(&o.bin, &dir.0) { Ok(e) => e, Err(e) => { println!("trouble {}", esc(e.to_string().as_bytes())); return 2; } };
    let mut st = Stats::default();
    let start = Instant::now();
    let n = o.cases.unwrap_or(0);
    let mut i = o.from + w;
    let mut troubles = 0;
    let listed = findings(o);
    while i < o.from + n {
        if o.limit > 0 && start.elapsed() > Duration::from_secs(o.limit) { break; }
        let c = make(p, o.seed, i);
        st.cases += 1;
        let (v, sig, trouble) = judge(p, &mut ex, &mut st, &c);
        if let Some(t) = trouble {
            troubles += 1;
            if std::env::var("SEAMSIM_VERBOSE").is_ok() { eprintln!("case {}: {}", i, t); }
            if troubles > 20 { println!("trouble {}", esc(t.as_bytes())); return 2; }
        }
        match v {
            Verdict::Skip(s) => *st.skips.entry(s).or_default() += 1,
            Verdict::Fine(nt) => {
                st.fine += 1;
                st.sigs.insert(sig);
                if nt { st.nontrivial.insert(sig); }
                if nt && st.samples.len() < 1 && i >= 8 { st.samples.push(c.text()); }
                if i % 53 == 0 {
                    // The same seed is the same execution, to the last event.
                    st.repeats += 1;
                    let mut dummy = Stats::default();
                    let (_, again, _) = judge(p, &mut ex, &mut dummy, &c);
                    if again != sig {
                        st.diverged += 1;
                        if p.id == "C01" {
                            println!("bad {} {} {}", i, esc(b"not repeatable"), esc(b"two executions of the same seed differ"));
                            break;
                        }
                        println!("diverged {}", i);
                    }
                }
            },
            Verdict::Bad(class, detail) => {
                if let Some(f) = known(&listed, p.id, &class, &detail) {
                    st.hit(&format!("known finding: {}", f.what));
                } else {
                    println!("bad {} {} {}", i, esc(class.as_bytes()), esc(detail.as_bytes()));
                    break;
                }
            },
        }
        i += o.jobs;
    }
    print!("{}", st.text());
    0
}

/// A genuine defect recorded in the known-findings file:
/// `finding: property=ID class=CLASS replay=FILE what=TEXT match=TEXT`.
struct Finding { prop: String, class: String, replay: PathBuf, what: String, text: String }

fn findings(o: &Opts) -> Vec<Finding> {
    let Ok(t) = std::fs::read_to_string(&o.known) else { return vec![] };
    let base = o.known.parent().map(|p| p.to_path_buf()).unwrap_or_default();
    t.lines().filter_map(|l| l.strip_prefix("finding: property=")).filter_map(|l| {
        let (prop, l) = l.split_once(" class=")?;
        let (class, l) = l.split_once(" replay=")?;
        let (replay, l) = l.split_once(" what=")?;
        let (what, text) = l.split_once(" match=")?;
        if text.is_empty() { return None; }
        Some(Finding { prop: prop.into(), class: class.replace('_', " "), replay: base.join(replay), what: what.into(), text: text.into() })
    }).collect()
}

fn same_class(f: &Finding, class: &str) -> bool {
    class == f.class || class.strip_prefix(f.class.as_str()).map_or(false, |r| r.starts_with(' '))
}

/// A listed defect of this property; or one listed for another property, which
/// is that one's to report.
fn known<'a>(list: &'a [Finding], id: &str, class: &str, detail: &str) -> Option<&'a Finding> {
    list.iter().find(|f| (f.prop != id || same_class(f, class)) && detail.contains(&f.text))
}

fn main() {
    let o = opts();
    if let Some(f) = &o.replay { std::process::exit(replay(&o, f)); }
    if o.tier == "show" {
        if let Some(p) = find(&o.prop) { print!("{}", make(p, o.seed, o.from).text()); }
        std::process::exit(0);
    }
    let Some(p) = find(&o.prop) else { eprintln!("no such property {:?}", o.prop); std::process::exit(2) };
    if let Some(w) = o.worker { std::process::exit(worker(&o, p, w)); }
    std::process::exit(check(o, p));
}

fn check(o: Opts, p: &'static Prop) -> i32 {
    let start = Instant::now();
    let thorough = o.tier == "thorough";
    let cases = o.cases.unwrap_or(if thorough { p.thorough } else { p.quick });
    let limit = if o.limit > 0 { o.limit } else if thorough { 780 } else { 240 };
    let exe = std::env::current_exe().unwrap();
    println!("{} seed {} tier {} cases {}", p.id, o.seed, o.tier, cases);
    let mut kids = vec![];
    for w in 0..o.jobs {
        let mut c = std::process::Command::new(&exe);
        c.args(["--property", p.id, "--seed", &o.seed.to_string(), "--bin"]).arg(&o.bin)
            .args(["--jobs", &o.jobs.to_string(), "--worker", &w.to_string(), "--cases", &cases.to_string(), "--limit", &limit.to_string(), "--from", &o.from.to_string(), "--known"]).arg(&o.known)
            .stdout(std::process::Stdio::piped());
        match c.spawn() { Ok(k) => kids.push(k), Err(e) => { eprintln!("worker: {}", e); return 2; } }
    }
    let mut total = Stats::default();
    let mut bads: Vec<(u64, String, String)> = vec![];
    let mut trouble = vec![];
    let readers: Vec<_> = kids.iter_mut().map(|k| {
        let out = k.stdout.take().unwrap();
        std::thread::spawn(move || std::io::BufReader::new(out).lines().map_while(|l| l.ok()).collect::<Vec<_>>())
    }).collect();
    for (k, r) in kids.iter_mut().zip(readers) {
        let lines = r.join().unwrap_or_default();
        let mut st = Stats::default();
        for l in lines {
            let w: Vec<&str> = l.split(' ').collect();
            match w[0] {
                "bad" => bads.push((w[1].parse().unwrap(), lossy(&unesc(w[2]).unwrap_or_default()), lossy(&unesc(w[3]).unwrap_or_default()))),
                "trouble" => trouble.push(lossy(&unesc(w[1]).unwrap_or_default())),
                "diverged" => println!("not repeatable: case {}", w[1]),
                _ => { st.line(&l); },
            }
        }
        total.merge(st);
        match k.wait() { Ok(s) if s.success() => {}, s => trouble.push(format!("worker ended with {:?}", s)) }
    }
    bads.sort();
    // Recorded findings: do they still fail?
    let mut still = 0;
    for f in findings(&o).into_iter().filter(|f| f.prop == p.id) {
        let seen = std::fs::read_to_string(&f.replay).ok().and_then(|t| Case::parse(&t)).map_or(false, |c| {
            let dir = Scratch(scratch("known"));
            exec::Exec::new(&o.bin, &dir.0).map_or(false, |mut ex| match judge(p, &mut ex, &mut Stats::default(), &c).0 {
                Verdict::Bad(class, d) => same_class(&f, &class) && d.contains(&f.text),
                _ => false,
            })
        });
        if seen { still += 1; println!("KNOWN-FINDING: property={} {}", p.id, f.what); }
    }
    // A violation that a fresh process does not show again is reported all the
    // same, unless it is about time: a slow machine is not a hang.
    let mut seen = false;
    for (i, class, detail) in bads.iter().take(3) {
        if report(&o, p, *i, class, detail) { seen = true; break; }
    }
    if !seen { bads.clear(); }
    let code = match seen {
        true => 1,
        false if !trouble.is_empty() => { eprintln!("machinery failed: {:?}", trouble); 2 },
        false => 0,
    };
    evidence(&o, p, &total, start.elapsed().as_secs_f64(), bads.len().min(1), still);
    let skipped: u64 = total.skips.values().sum();
    println!("{}: {} cases, {} judged, {} not judged, {} runs, {} distinct executions, {:.1} s; repeated {}, diverged {}",
        p.id, total.cases, total.fine, skipped, total.runs, total.sigs.len(), start.elapsed().as_secs_f64(), total.repeats, total.diverged);
    for (k, v) in &total.skips { println!("  not judged: {} × {}", v, k); }
    if std::env::var_os("SEAMSIM_VERBOSE").is_some() {
        for (k, v) in &total.faults { println!("  fault: {} × {}", v, k); }
        for (k, v) in &total.probes { println!("  reached: {} × {}", v, k); }
    }
    code
}

fn report(o: &Opts, p: &Prop, i: u64, class: &str, detail: &str) -> bool {
    let case = make(p, o.seed, i);
    let dir = Scratch(scratch("shrink"));
    let dest = o.out.join("replays");
    let _ = std::fs::create_dir_all(&dest);
    let path = dest.join(format!("{}-{}-{}.case", p.id, o.seed, i));
    let mut best = case.clone();
    let mut what = detail.to_string();
    if let Ok(mut ex) = exec::Exec::new(&o.bin, &dir.0) {
        ex.cpu_limit = 2;
        let last = std::cell::RefCell::new(String::new());
        let listed = findings(o);
        let mut still = |c: &Case| {
            let mut st = Stats::default();
            match judge(p, &mut ex, &mut st, c).0 { Verdict::Bad(k, d) if k == class && known(&listed, p.id, &k, &d).is_none() => { *last.borrow_mut() = d; true }, _ => false }
        };
        let tried = {
            let mut s = shrink::Shrink::new(&mut still, Duration::from_secs(if o.tier == "thorough" { 60 } else { 25 }), p.coupled);
            best = s.run(case.clone());
            s.tried
        };
        if still(&best) { what = last.borrow().clone(); }
        println!("minimised in {} steps from {} to {} bytes", tried, case.text().len(), best.text().len());
    }
    let write = |case: &Case, what: &str| {
        let head: String = what.lines().map(|l| format!("# {}\n", l)).collect();
        let text = format!("# violation of {} ({}), seed {} case {}\n{}{}", p.id, class, o.seed, i, head, case.text());
        if std::fs::write(&path, &text).is_err() { eprintln!("cannot write {}", path.display()); }
    };
    // In a fresh process, once more.
    let again = || std::process::Command::new(std::env::current_exe().unwrap()).arg("--replay").arg(&path).arg("--bin").arg(&o.bin)
        .stdout(std::process::Stdio::null()).status().ok().and_then(|s| s.code()) == Some(1);
    write(&best, &what);
    let mut same = again();
    if !same && best.text() != case.text() {
        what = detail.to_string();
        write(&case, &what);
        same = again();
    }
    if !same && class == "crash" {
        println!("not a violation: seed {} case {} ({}) ran out of time once and not again", o.seed, i, detail.lines().next().unwrap_or(""));
        let _ = std::fs::remove_file(&path);
        return false;
    }
    println!("violation ({}) seed {} case {}: {}", class, o.seed, i, what);
    println!("replayed in a fresh process: {}", if same { "same violation" } else { "NOT REPRODUCED" });
    println!("VIOLATION property={} replay={}", p.id, path.display());
    true
}

fn replay(o: &Opts, f: &PathBuf) -> i32 {
    let Some(c) = std::fs::read_to_string(f).ok().and_then(|t| Case::parse(&t)) else { eprintln!("cannot read {}", f.display()); return 2 };
    let Some(p) = find(&c.prop) else { eprintln!("no such property"); return 2 };
    let dir = Scratch(scratch("replay"));
    let mut ex = match exec::Exec::new(&o.bin, &dir.0) { Ok(e) => e, Err(e) => { eprintln!("{}", e); return 2 } };
    let mut st = Stats::default();
    match judge(p, &mut ex, &mut st, &c) {
        (Verdict::Bad(class, d), sig, _) => {
            println!("violation ({}): {}\nexecution {:016x}", class, d, sig);
            println!("VIOLATION property={} replay={}", p.id, f.display());
            1
        },
        (Verdict::Skip(s), _, _) => { println!("not judged: {}", s); 0 },
        (Verdict::Fine(_), sig, _) => { println!("held; execution {:016x}", sig); 0 },
    }
}

fn evidence(o: &Opts, p: &Prop, st: &Stats, wall: f64, violations: usize, findings: usize) {
    let map = |m: &std::collections::BTreeMap<String, u64>| format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "));
    let per_hour = |n: u64| (n as f64 * 3600.0 / wall.max(0.001)) as u64;
    let stub = ["file system, directories and metadata", "standard streams", "clock and time-zone files", "random numbers", "heap", "thread scheduler", "process end"];
    let real = if matches!(p.id, "C08") { vec!["library: lexer, parser, expander, all formatters (called by the probe)"] }
        else if matches!(p.id, "C02" | "C05" | "C09") { vec!["seam command", "library: lexer, parser, expander, all formatters", "library called by the probe"] }
        else { vec!["seam command, unmodified binary", "library: lexer, parser, expander, all formatters"] };
    let list = |v: &[&str]| format!("[{}]", v.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "));
    let samples: Vec<String> = st.samples.iter().map(|s| json_str(&s.chars().take(3000).collect::<String>())).collect();
    let text = format!("{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"cases\": {},\n  \"cases_not_judged\": {},\n  \"simulated_runs\": {},\n  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_seconds\": {},\n  \"outside_calls\": {},\n  \"heap_calls\": {},\n  \"distinct_executions\": {},\n  \"distinct_executions_measure\": \"hash of the complete event logs (every outside call with arguments and result) of all runs of a case\",\n  \"runs_compared_with_model\": {},\n  \"faults_injected\": {},\n  \"conditions_reached\": {},\n  \"repeated_for_determinism\": {},\n  \"diverged\": {},\n  \"known_findings_seen\": {},\n  \"real_components\": {},\n  \"simulated_components\": {}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id), json_str(&o.tier), o.seed, st.fine, st.nontrivial.len(), json_str(p.rule), samples.join(", "),
        st.cases, map(&st.skips), st.runs, per_hour(st.runs), per_hour(st.cases), st.sim_ns / 1_000_000_000, st.ops, st.allocs, st.sigs.len(), st.modelled,
        map(&st.faults), map(&st.probes), st.repeats, st.diverged, findings, list(&real), list(&stub),
        list(&["the simulated C library behaves as POSIX and Linux document for the calls used", "a sampled search: schedules and faults that were not drawn are not covered", "unbounded macro recursion, include cycles and exhausted stacks are excluded"])[1..].trim_end_matches(']'),
        wall, violations);
    let dir = o.out.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}.json", p.id));
    if let Err(e) = std::fs::File::create(&path).and_then(|mut f| f.write_all(text.as_bytes())) { eprintln!("evidence: {}", e); }
}

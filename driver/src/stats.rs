//! What the simulated runs of a check covered.
use crate::exec::*;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Default)]
pub struct Stats {
    pub cases: u64,
    pub fine: u64,
    pub skips: BTreeMap<String, u64>,
    pub faults: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub runs: u64,
    pub sim_ns: u128,
    pub ops: u64,
    pub allocs: u64,
    pub sigs: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub modelled: u64,
    pub repeats: u64,
    pub diverged: u64,
    pub samples: Vec<String>,
}

pub fn errno_name(e: i64) -> String {
    match e {
        2 => "ENOENT", 4 => "EINTR", 5 => "EIO", 9 => "EBADF", 11 => "EAGAIN", 12 => "ENOMEM", 13 => "EACCES", 20 => "ENOTDIR",
        21 => "EISDIR", 23 => "ENFILE", 24 => "EMFILE", 28 => "ENOSPC", 32 => "EPIPE", 40 => "ELOOP", 116 => "ESTALE", 122 => "EDQUOT",
        _ => return format!("errno {}", e),
    }.into()
}

impl Stats {
    pub fn hit(&mut self, name: &str) { *self.probes.entry(name.into()).or_default() += 1; }
    pub fn fault(&mut self, name: &str, n: u64) { if n > 0 { *self.faults.entry(name.into()).or_default() += n; } }
    pub fn record(&mut self, t: &Trace, chunked: bool, limited: bool) {
        self.runs += 1;
        self.ops += t.ops;
        self.allocs += t.allocs;
        for e in &t.evs {
            match e {
                Ev::Fault { op, errno, .. } => self.fault(&format!("{} {}", op, errno_name(*errno)), 1),
                Ev::Mut(_) => self.fault("change of files or clock during the run", 1),
                Ev::Read { n, want, .. } if chunked && *n > 0 && n < want => self.fault("short read", 1),
                Ev::Write { .. } if limited => self.fault("limited write", 1),
                Ev::Open { ret, .. } if *ret == -24 => self.fault("descriptor table full", 1),
                Ev::Other(l) if l.starts_with("NOMEM") => self.fault("allocation failure", 1),
                Ev::Other(l) if l.starts_with("KILL") => self.fault("process killed", 1),
                _ => {},
            }
        }
        self.fault("thread switch", t.switches);
    }
    pub fn merge(&mut self, o: Stats) {
        self.cases += o.cases; self.fine += o.fine; self.runs += o.runs; self.sim_ns += o.sim_ns; self.ops += o.ops; self.allocs += o.allocs;
        self.modelled += o.modelled; self.repeats += o.repeats; self.diverged += o.diverged;
        for (k, v) in o.skips { *self.skips.entry(k).or_default() += v; }
        for (k, v) in o.faults { *self.faults.entry(k).or_default() += v; }
        for (k, v) in o.probes { *self.probes.entry(k).or_default() += v; }
        self.sigs.extend(o.sigs);
        self.nontrivial.extend(o.nontrivial);
        if self.samples.len() < 3 { self.samples.extend(o.samples); self.samples.truncate(3); }
    }
    pub fn text(&self) -> String {
        use crate::util::esc;
        let mut s = format!("n {} {} {} {} {} {} {} {} {}\n", self.cases, self.fine, self.runs, self.sim_ns, self.ops, self.allocs, self.modelled, self.repeats, self.diverged);
        for (t, m) in [("skip", &self.skips), ("fault", &self.faults), ("probe", &self.probes)] {
            for (k, v) in m { s += &format!("{} {} {}\n", t, esc(k.as_bytes()), v); }
        }
        for x in &self.sigs { s += &format!("s {:x} {}\n", x, self.nontrivial.contains(x) as u8); }
        for x in &self.samples { s += &format!("sample {}\n", esc(x.as_bytes())); }
        s
    }
    pub fn line(&mut self, l: &str) -> Option<()> {
        use crate::util::{lossy, unesc};
        let w: Vec<&str> = l.split(' ').collect();
        match w[0] {
            "n" => {
                let n: Vec<u128> = w[1..].iter().filter_map(|x| x.parse().ok()).collect();
                let [a, b, c, d, e, f, g, h, i] = n[..] else { return None };
                (self.cases, self.fine, self.runs, self.sim_ns, self.ops, self.allocs) = (a as u64, b as u64, c as u64, d, e as u64, f as u64);
                (self.modelled, self.repeats, self.diverged) = (g as u64, h as u64, i as u64);
            },
            "skip" | "fault" | "probe" => {
                let k = lossy(&unesc(w.get(1)?)?);
                let m = match w[0] { "skip" => &mut self.skips, "fault" => &mut self.faults, _ => &mut self.probes };
                *m.entry(k).or_default() += w.get(2)?.parse::<u64>().ok()?;
            },
            "s" => {
                let x = u64::from_str_radix(w.get(1)?, 16).ok()?;
                self.sigs.insert(x);
                if *w.get(2)? == "1" { self.nontrivial.insert(x); }
            },
            "sample" => self.samples.push(lossy(&unesc(w.get(1)?)?)),
            _ => return None,
        }
        Some(())
    }
}

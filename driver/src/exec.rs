//! Starting one process inside the simulator and reading back what it did.
use crate::case::*;
use crate::util::*;
use std::ffi::OsString;
use std::io::Write;
use std::os::unix::ffi::OsStringExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::PathBuf;
use std::process::{Command, Stdio};

extern "C" {
    fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
    fn personality(p: u64) -> i32;
    fn alarm(s: u32) -> u32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
}

pub struct Exec {
    pub seam: PathBuf,
    pub probe: PathBuf,
    pub lib: PathBuf,
    scn: PathBuf,
    log: PathBuf,
    map: *mut u8,
    pub runs: u64,
    pub sim_ns: u128,
    pub cpu_limit: u64,
}

const LOG_SIZE: usize = 24 << 20;

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
}

#[allow(dead_code)]
#[derive(Clone, Debug)]
pub enum Ev {
    Open { tid: u32, path: String, canon: String, ret: i64 },
    Read { path: String, want: i64, n: i64 },
    Write { fd: u32, data: Vec<u8> },
    WriteErr { fd: u32, errno: i64 },
    Close { path: String, fd: i64, err: i64 },
    CloseStd(i64),
    Stat { path: String, canon: String, ret: i64 },
    OpenDir { path: String, canon: String, fd: i64 },
    Clock(i64),
    Fault { rule: i64, op: String, path: String, errno: i64 },
    Mut(i64),
    /// Allocations made before the write that follows.
    Allocs(i64),
    /// An environment variable was asked for.
    Var(String),
    Effect { what: String, path: String },
    BadClose(i64),
    Sleep(i64),
    Switch(i64, i64),
    Other(String),
}

/// Everything one simulated process did.
#[derive(Clone, Debug)]
pub struct Trace {
    pub end: End,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub evs: Vec<Ev>,
    pub digest: u64,
    pub ops: u64,
    pub allocs: u64,
    pub switches: u64,
    pub flags: u64,
    pub leaked: u64,
    pub threads: u64,
    pub hang: bool,
}

pub const F_HEAP: u64 = 2;
pub const F_SECCOMP: u64 = 8;
pub const F_EXITED: u64 = 16;

impl Trace {
    pub fn code(&self) -> i32 { match self.end { End::Exit(c) => c, End::Signal(s) => 128 + s } }
    pub fn stderr(&self) -> String { plain(&lossy(&self.err)) }
    /// The simulator ended the process (not a verdict on the code).
    pub fn killed(&self) -> bool { self.end == End::Exit(99) }
    /// Abnormal end: signal, panic, heap damage, no progress.
    pub fn crash(&self) -> Option<String> {
        if self.hang { return Some("hang".into()); }
        if self.flags & F_HEAP != 0 { return Some("heap damage".into()); }
        match self.end {
            End::Signal(s) => Some(format!("killed by signal {}", s)),
            End::Exit(101) => Some("panic".into()),
            End::Exit(93) => Some("deadlock".into()),
            End::Exit(94) => Some("heap damage".into()),
            End::Exit(98) => Some("step budget exhausted".into()),
            End::Exit(c) if (90..=97).contains(&c) => Some(format!("simulator error {}", c)),
            _ => None,
        }
    }
    /// A problem of the machinery rather than of the code under test.
    pub fn sim_error(&self) -> Option<i32> {
        match self.end { End::Exit(c) if matches!(c, 90..=92 | 95..=97) => Some(c), _ => None }
    }
    pub fn summary(&self) -> String {
        let cut = |b: &[u8]| {
            let c: Vec<char> = lossy(b).chars().collect();
            if c.len() <= 700 { return c.into_iter().collect::<String>(); }
            format!("{} … {}", c[..300].iter().collect::<String>(), c[c.len() - 400..].iter().collect::<String>())
        };
        format!("end {:?} flags {} out {:?} err {:?}", self.end, self.flags, cut(&self.out), cut(self.stderr().as_bytes()))
    }
}

impl Exec {
    pub fn new(bin: &PathBuf, scratch: &PathBuf) -> std::io::Result<Exec> {
        std::fs::create_dir_all(scratch)?;
        let log = scratch.join("log");
        let f = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(true).open(&log)?;
        f.set_len(LOG_SIZE as u64)?;
        use std::os::fd::AsRawFd;
        let map = unsafe { mmap(std::ptr::null_mut(), LOG_SIZE, 3, 1, f.as_raw_fd(), 0) };
        if map as isize == -1 { return Err(std::io::Error::last_os_error()); }
        Ok(Exec {
            seam: bin.join("seam"), probe: bin.join("probe"), lib: bin.join("libsim.so"),
            scn: scratch.join("scn"), log, map, runs: 0, sim_ns: 0, cpu_limit: 4,
        })
    }

    pub fn run(&mut self, case: &Case, i: usize) -> std::io::Result<Trace> {
        let run = &case.runs[i];
        self.run_as(case, run)
    }

    pub fn run_as(&mut self, case: &Case, run: &Run) -> std::io::Result<Trace> {
        let t = self.once(case, run, self.cpu_limit)?;
        if t.hang {
            // A loaded machine is not a hang: only a second, longer try counts.
            return self.once(case, run, self.cpu_limit * 8);
        }
        Ok(t)
    }

    fn once(&mut self, case: &Case, run: &Run, cpu: u64) -> std::io::Result<Trace> {
        std::fs::write(&self.scn, case.scenario(run))?;
        let bin = if case.kind == "probe" { &self.probe } else { &self.seam };
        let os = |b: &Vec<u8>| OsString::from_vec(b.clone());
        let mut cmd = Command::new(bin);
        cmd.args(run.args.iter().map(os)).env_clear().current_dir("/");
        for (k, v) in &run.env { cmd.env(os(k), os(v)); }
        cmd.env("RUST_BACKTRACE", "0").env("LD_PRELOAD", &self.lib)
            .env("SIM_SCN", &self.scn).env("SIM_LOG", &self.log);
        cmd.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        unsafe {
            // Header only: the simulator clears it too, but it may never start.
            std::ptr::write_bytes(self.map, 0, 96);
            cmd.pre_exec(move || {
                let lim = |r, v: u64| setrlimit(r, &[v, v] as *const _);
                lim(0, cpu); // RLIMIT_CPU
                lim(4, 0); // RLIMIT_CORE
                lim(9, 6 << 30); // RLIMIT_AS
                alarm((cpu * 30) as u32);
                personality(0x0040000); // ADDR_NO_RANDOMIZE
                prctl(1, 9, 0, 0, 0); // die with the parent
                Ok(())
            });
        }
        let status = cmd.status()?;
        self.runs += 1;
        let end = match (status.code(), status.signal()) {
            (Some(c), _) => End::Exit(c),
            (_, Some(s)) => End::Signal(s),
            _ => End::Exit(-1),
        };
        let h = |k: usize| unsafe { (self.map as *const u64).add(k).read_volatile() };
        let len = (h(1) as usize).min(LOG_SIZE - 96);
        let text = unsafe { std::slice::from_raw_parts(self.map.add(96), len) };
        let mut t = Trace {
            hang: matches!(end, End::Signal(9 | 14 | 24)),
            end, out: vec![], err: vec![], evs: vec![], digest: fnv(text),
            ops: h(3), allocs: h(4), switches: h(8), flags: h(9), leaked: h(10), threads: h(11),
        };
        if h(0) == 0 { return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("simulator did not start: {:?}", t.end))); }
        let mut sim_ns = 0i128;
        let mut last_clock: Option<i64> = None;
        for line in std::str::from_utf8(text).unwrap_or("").lines() {
            let Some(ev) = parse_ev(line) else { continue };
            match &ev {
                Ev::Write { fd: 1, data } => t.out.extend_from_slice(data),
                Ev::Write { fd: 2, data } => t.err.extend_from_slice(data),
                Ev::Clock(ns) => { if let Some(p) = last_clock { sim_ns += (*ns as i128 - p as i128).abs(); } last_clock = Some(*ns); },
                Ev::Sleep(ns) => sim_ns += *ns as i128,
                _ => {},
            }
            t.evs.push(ev);
        }
        self.sim_ns += sim_ns as u128;
        Ok(t)
    }
}

fn parse_ev(line: &str) -> Option<Ev> {
    let w: Vec<&str> = line.split(' ').filter(|s| !s.is_empty()).collect();
    let s = |i: usize| w.get(i).and_then(|s| unesc(s)).map(|b| name(&b)).unwrap_or_default();
    let n = |i: usize| w.get(i).and_then(|s| s.parse::<i64>().ok()).unwrap_or(0);
    Some(match *w.first()? {
        "O" => Ev::Open { tid: n(1) as u32, path: s(2), canon: s(3), ret: n(4) },
        "R" => Ev::Read { path: s(2), want: n(3), n: n(4) },
        "W" => Ev::Write { fd: n(2) as u32, data: unesc(w.get(4)?)? },
        "w" => Ev::WriteErr { fd: n(2) as u32, errno: n(3) },
        "C" => Ev::Close { path: s(2), fd: n(3), err: n(4) },
        "CSTD" => Ev::CloseStd(n(2)),
        "S" => Ev::Stat { path: s(2), canon: s(3), ret: n(4) },
        "D" => Ev::OpenDir { path: s(2), canon: s(3), fd: n(4) },
        "T" => Ev::Clock(n(2)),
        "F" => Ev::Fault { rule: n(2), op: w.get(3)?.to_string(), path: s(4), errno: n(5) },
        "V" => Ev::Var(s(2)),
        "A" => Ev::Allocs(n(2)),
        "MUT" => Ev::Mut(n(2)),
        "EFFECT" => Ev::Effect { what: w.get(2)?.to_string(), path: s(3) },
        "EBADCLOSE" => Ev::BadClose(n(2)),
        "SLEEP" => Ev::Sleep(n(2)),
        "Y" => Ev::Switch(n(1), n(2)),
        _ => Ev::Other(line.to_string()),
    })
}
#[allow(unused_imports)]
use Write as _;

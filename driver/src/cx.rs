//! What every property check has at hand.
use crate::case::*;
use crate::exec::*;
use crate::model::{self, Outcome};
use crate::stats::Stats;
use crate::util::*;

pub enum Verdict {
    Skip(String),
    /// Held; whether the case exercised what it was made for.
    Fine(bool),
    /// (class, what was seen)
    Bad(String, String),
}

pub type V = Result<bool, Verdict>;

pub struct Cx<'a> {
    pub ex: &'a mut Exec,
    pub st: &'a mut Stats,
    /// Event log digests of the runs of this case.
    pub digests: Vec<u64>,
    pub fired: u64,
    pub trouble: Option<String>,
}

pub fn bad<T>(class: &str, detail: impl Into<String>) -> Result<T, Verdict> { Err(Verdict::Bad(class.into(), detail.into())) }
pub fn skip<T>(why: &str) -> Result<T, Verdict> { Err(Verdict::Skip(why.into())) }

impl<'a> Cx<'a> {
    pub fn go(&mut self, case: &Case, run: &Run) -> Result<Trace, Verdict> {
        let before = self.ex.sim_ns;
        let t = match self.ex.run_as(case, run) {
            Ok(t) => t,
            Err(e) => { self.trouble = Some(e.to_string()); return skip("simulator"); },
        };
        self.st.sim_ns += self.ex.sim_ns - before;
        let chunked = run.dirs.iter().any(|d| matches!(d, Dir::Chunk(..)));
        let limited = run.dirs.iter().any(|d| matches!(d, Dir::WLimit(..)));
        self.st.record(&t, chunked, limited);
        self.digests.push(t.digest ^ mix(t.code() as u64));
        self.fired += t.evs.iter().filter(|e| matches!(e, Ev::Fault { .. } | Ev::Mut(_))).count() as u64;
        if let Some(c) = t.sim_error() { self.trouble = Some(format!("simulator exit {}", c)); return skip("simulator"); }
        Ok(t)
    }
    pub fn model(&mut self, case: &Case, run: &Run) -> Result<Outcome, Verdict> {
        match model::build_all(case, run) {
            Ok(o) => { self.st.modelled += 1; Ok(o) },
            Err(s) => skip(&format!("model: {}", s)),
        }
    }
    /// Standard output and status against the model.
    pub fn exact(&mut self, t: &Trace, o: &Outcome) -> Result<(), Verdict> {
        if let Some(c) = t.crash() { return bad("crash", format!("{}; expected status {} ({})\n{}", c, o.code, o.why, t.summary())); }
        if t.code() != o.code { return bad("status", format!("expected status {} ({})\nexpected output {:?}\n{}", o.code, o.why, lossy(&o.out), t.summary())); }
        if t.out != o.out { return bad("output", format!("expected status {} output {:?}\n{}", o.code, lossy(&o.out), t.summary())); }
        if o.code != 0 && t.err.is_empty() { return bad("silent", t.summary()); }
        Ok(())
    }
}

/// What two runs disagree about.
pub fn differs(a: &Trace, b: &Trace, err: bool) -> Option<&'static str> {
    if a.crash() != b.crash() { return Some("crash"); }
    if a.code() != b.code() { return Some("status"); }
    if a.out != b.out { return Some("output"); }
    if err && a.err != b.err { return Some("diagnostics"); }
    None
}

pub fn join(base: &Run, extra: &Run) -> Run {
    let mut r = base.clone();
    r.label = extra.label.clone();
    r.dirs.extend(extra.dirs.iter().cloned());
    r.overlay.extend(extra.overlay.iter().cloned());
    for (k, v) in &extra.env { r.env.retain(|e| e.0 != *k); r.env.push((k.clone(), v.clone())); }
    r
}

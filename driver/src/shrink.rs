//! Smaller cases with the same kind of violation.
use crate::case::*;
use std::time::{Duration, Instant};

pub struct Shrink<'a> {
    pub still: &'a mut dyn FnMut(&Case) -> bool,
    pub until: Instant,
    pub tried: u32,
    pub coupled: bool,
}

impl<'a> Shrink<'a> {
    pub fn new(still: &'a mut dyn FnMut(&Case) -> bool, limit: Duration, coupled: bool) -> Self {
        Shrink { still, until: Instant::now() + limit, tried: 0, coupled }
    }
    fn try_(&mut self, best: &mut Case, c: Case) -> bool {
        if Instant::now() > self.until || c == *best { return false; }
        self.tried += 1;
        if (self.still)(&c) { *best = c; true } else { false }
    }
    pub fn run(&mut self, mut best: Case) -> Case {
        loop {
            let before = best.clone();
            self.structure(&mut best);
            self.contents(&mut best);
            if before == best || Instant::now() > self.until { return best; }
        }
    }

    fn structure(&mut self, best: &mut Case) {
        let mut i = best.runs.len();
        while i > 1 { i -= 1; let mut c = best.clone(); c.runs.remove(i); self.try_(best, c); }
        for i in 0..best.runs.len() {
            // All at once first.
            let mut c = best.clone(); c.runs[i].dirs.clear(); self.try_(best, c);
            let mut c = best.clone(); c.runs[i].env.clear(); self.try_(best, c);
            let mut j = best.runs[i].dirs.len();
            while j > 0 { j -= 1; let mut c = best.clone(); c.runs[i].dirs.remove(j); self.try_(best, c); }
            let mut j = best.runs[i].env.len();
            while j > 0 { j -= 1; let mut c = best.clone(); c.runs[i].env.remove(j); self.try_(best, c); }
            let mut j = best.runs[i].args.len();
            while j > 1 { j -= 1; let mut c = best.clone(); c.runs[i].args.remove(j); self.try_(best, c); }
            let mut j = best.runs[i].overlay.len();
            while j > 0 { j -= 1; let mut c = best.clone(); c.runs[i].overlay.remove(j); self.try_(best, c); }
            for j in 0..best.runs[i].dirs.len() {
                if let Dir::Chunk(_, v) | Dir::WLimit(_, v) = &best.runs[i].dirs[j] {
                    if v.len() > 1 {
                        let first = v[0];
                        let mut c = best.clone();
                        if let Dir::Chunk(_, v) | Dir::WLimit(_, v) = &mut c.runs[i].dirs[j] { *v = vec![first]; }
                        self.try_(best, c);
                    }
                }
            }
        }
        for p in best.tree.keys().cloned().collect::<Vec<_>>() {
            let mut c = best.clone();
            c.tree.remove(&p);
            self.try_(best, c);
        }
        if !best.param("plan").is_empty() {
            let mut i = best.param("plan").lines().count();
            while i > 0 {
                i -= 1;
                let mut l: Vec<String> = best.param("plan").lines().map(|l| l.to_string()).collect();
                if i >= l.len() { continue; }
                l.remove(i);
                let mut c = best.clone();
                c.set("plan", l.join("\n") + "\n");
                self.try_(best, c);
            }
        }
        let pts: Vec<String> = best.param("points").split(' ').map(|s| s.to_string()).collect();
        if pts.len() > 1 {
            for p in pts { let mut c = best.clone(); c.set("points", p); if self.try_(best, c) { break; } }
        }
    }

    fn contents(&mut self, best: &mut Case) {
        for p in best.tree.keys().cloned().collect::<Vec<_>>() {
            if self.coupled || p.starts_with("/usr/") || p.starts_with("/etc/") { continue; }
            if let Some(NodeKind::File(d)) = best.tree.get(&p).map(|n| n.kind.clone()) {
                self.bytes(best, d, &mut |c, d| { if let Some(n) = c.tree.get_mut(&p) { n.kind = NodeKind::File(d); } });
            }
        }
        for i in 0..best.runs.len() {
            let d = best.runs[i].stdin.clone();
            self.bytes(best, d, &mut |c, d| c.runs[i].stdin = d);
        }
    }
    fn bytes(&mut self, best: &mut Case, mut d: Vec<u8>, put: &mut dyn FnMut(&mut Case, Vec<u8>)) {
        let mut size = d.len();
        while size > 0 {
            let mut at = 0;
            while at < d.len() {
                if Instant::now() > self.until { return; }
                let mut n = d.clone();
                let end = (at + size).min(n.len());
                // Whole characters only.
                let cont = |b: Option<&u8>| b.map_or(false, |b| b & 0xc0 == 0x80);
                if cont(d.get(at)) || cont(d.get(end)) { at += 1; continue; }
                n.drain(at..end);
                let mut c = best.clone();
                put(&mut c, n.clone());
                if self.try_(best, c) { d = n; } else { at += size; }
            }
            size /= 2;
        }
    }
}

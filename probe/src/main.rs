//! A caller of the library, run inside the simulator: does what the plan file
//! says and prints what came of it, one line per step.
use seam::assemble::MarkupFormatter;
use std::os::unix::ffi::OsStrExt;
use std::fmt::Write as _;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn esc(b: &[u8]) -> String {
    let mut s = String::from("=");
    for &b in b {
        if b > 32 && b < 127 && b != b'%' { s.push(b as char) } else { write!(s, "%{:02X}", b).unwrap() }
    }
    s
}
fn unesc(s: &str) -> Vec<u8> {
    let s = s.strip_prefix('=').unwrap_or(s).as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' { out.push(u8::from_str_radix(std::str::from_utf8(&s[i + 1..i + 3]).unwrap(), 16).unwrap()); i += 3; }
        else { out.push(s[i]); i += 1; }
    }
    out
}
fn text(s: &str) -> String { String::from_utf8(unesc(s)).unwrap() }

/// Hands out bytes as scripted: a number is the most to give at once, `i` an
/// interruption, `e` a failure; the last number repeats, then end of file.
struct Reader { data: Vec<u8>, at: usize, script: Vec<String>, step: usize }

impl io::Read for Reader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let s = self.script.get(self.step).or(self.script.last()).cloned().unwrap_or("4096".into());
        self.step += 1;
        match s.as_str() {
            "i" => Err(io::Error::from(io::ErrorKind::Interrupted)),
            "e" => Err(io::Error::from_raw_os_error(5)),
            "r" => Err(io::Error::from(io::ErrorKind::ConnectionReset)),
            "u" => Err(io::Error::from(io::ErrorKind::UnexpectedEof)),
            "o" => Err(io::Error::other("of some other kind")),
            "v" => Err(io::Error::from(io::ErrorKind::InvalidData)),
            x if x.starts_with('x') => Err(io::Error::from_raw_os_error(x[1..].parse().unwrap_or(5))),
            n => {
                let n: usize = n.parse().unwrap();
                let n = n.max(1).min(buf.len()).min(self.data.len() - self.at);
                buf[..n].copy_from_slice(&self.data[self.at..self.at + n]);
                self.at += n;
                Ok(n)
            },
        }
    }
}

/// Refuses the k-th piece (counted from 0) and, if `once`, nothing after it.
struct Sink { fail: i64, partial: bool, once: bool, n: i64, got: String, after: u32 }

impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let i = self.n;
        self.n += 1;
        if self.fail >= 0 && i > self.fail { self.after += 1; }
        if i == self.fail || (self.fail >= 0 && i > self.fail && !self.once) {
            if self.partial && i == self.fail {
                let mut c = s.len() / 2;
                while !s.is_char_boundary(c) { c -= 1; }
                self.got.push_str(&s[..c]);
            }
            return Err(std::fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

fn formatter<'a>(target: &str, tree: seam::parse::parser::ParseTree<'a>) -> Box<dyn MarkupFormatter + 'a> {
    use seam::assemble::*;
    match target {
        "text" => Box::new(text::PlainTextFormatter::new(tree)),
        "sexp" => Box::new(sexp::SExpFormatter::new(tree)),
        "html" => Box::new(html::HTMLFormatter::new(tree)),
        "xml" => Box::new(xml::XMLFormatter::new(tree)),
        _ => Box::new(css::CSSFormatter::new(tree)),
    }
}

fn finish(mut b: seam::parse::expander::Expander, target: &str, doc: &str, incs: &[&str]) -> String {
    // Perhaps not all at once.
    for some in incs.split(|i| *i == "+") { b.add_includes(some.iter().map(|i| text(i))); }
    // The builder outlives what it builds.
    let b: &seam::parse::expander::Expander = unsafe { &*(&b as *const _) };
    match b.expand() {
        Err(e) => format!("err {}", esc(e.to_string().as_bytes())),
        Ok(tree) => {
            let f = formatter(target, tree);
            let r = if doc == "1" { f.document() } else { f.display() };
            let s = match r {
                Ok(s) => format!("ok {}", esc(s.as_bytes())),
                Err(e) => format!("err {}", esc(e.to_string().as_bytes())),
            };
            s
        },
    }
}

fn step(w: &[&str]) -> String {
    match w[0] {
        // build TARGET DOC PATH|- TEXT INC…
        "build" | "twice" => {
            let p = if w[3] == "-" { None } else { Some(text(w[3])) };
            let mut out = finish(seam::tree_builder(p.as_ref(), text(w[4])), w[1], w[2], &w[5..]);
            if w[0] == "twice" {
                out += " | ";
                out += &finish(seam::tree_builder(p.as_ref(), text(w[4])), w[1], w[2], &w[5..]);
            }
            out
        },
        "setenv" => { unsafe { std::env::set_var(std::ffi::OsStr::from_bytes(&unesc(w[1])), std::ffi::OsStr::from_bytes(&unesc(w[2]))); } "ok".into() },
        "unsetenv" => { unsafe { std::env::remove_var(std::ffi::OsStr::from_bytes(&unesc(w[1]))); } "ok".into() },
        // file TARGET DOC PATH INC…
        "file" => match seam::tree_builder_file(std::path::Path::new(std::ffi::OsStr::from_bytes(&unesc(w[3])))) {
            Ok(b) => finish(b, w[1], w[2], &w[4..]),
            Err(_) => "io".into(),
        },
        // stream TARGET DOC SCRIPT DATA INC…
        "stream" => {
            let mut r = Reader { data: unesc(w[4]), at: 0, script: w[3].split(',').map(|s| s.to_string()).collect(), step: 0 };
            let s = match seam::tree_builder_stream(&mut r) {
                Ok(b) => finish(b, w[1], w[2], &w[5..]),
                Err(_) => "io".into(),
            };
            s
        },
        // sink TARGET MODE FAILS TEXT: every k of FAILS, or all up to FAILS' first.
        "sink" => {
            let b = seam::tree_builder(Option::<&str>::None, text(w[4]));
            let bref: &seam::parse::expander::Expander = unsafe { &*(&b as *const _) };
            let tree = match bref.expand() { Ok(t) => t, Err(_) => return "err".into() };
            let f = formatter(w[1], tree);
            let mode: u32 = w[2].parse().unwrap();
            let put = |s: &mut Sink| -> bool {
                if mode & 4 != 0 { write!(s, "{}", f).is_ok() } else { f.generate(s).is_ok() }
            };
            let sink = |fail| Sink { fail, partial: mode & 1 != 0, once: mode & 2 != 0, n: 0, got: String::new(), after: 0 };
            let mut full = sink(-1);
            let ok = put(&mut full);
            let mut out = format!("full {} {} {}", ok as u8, full.n, esc(full.got.as_bytes()));
            let limit: i64 = w[3].parse().unwrap();
            let stride = (full.n / limit.max(1)).max(1);
            let mut k = 0;
            while k < full.n {
                let mut s = sink(k);
                let r = catch_unwind(AssertUnwindSafe(|| put(&mut s)));
                let r = match r { Ok(true) => "ok", Ok(false) => "err", Err(_) => "panic" };
                let mut again = sink(-1);
                let r2 = catch_unwind(AssertUnwindSafe(|| put(&mut again)));
                let same = matches!(r2, Ok(o) if o == ok) && again.got == full.got;
                write!(out, " ; {} {} {} {} {}", k, r, s.after, same as u8, esc(s.got.as_bytes())).unwrap();
                k += stride;
            }
            out
        },
        x => format!("unknown {}", x),
    }
}

fn lane(lines: Vec<String>) -> Vec<String> {
    lines.iter().map(|l| {
        let w: Vec<&str> = l.split(' ').collect();
        catch_unwind(AssertUnwindSafe(|| step(&w))).unwrap_or_else(|_| "panic".into())
    }).collect()
}

fn main() {
    let plan = std::fs::read_to_string("/plan").expect("plan");
    let mut lanes: Vec<Vec<String>> = vec![vec![]];
    for l in plan.lines() {
        if l == "thread" { lanes.push(vec![]); } else { lanes.last_mut().unwrap().push(l.to_string()); }
    }
    let first = lane(lanes.remove(0));
    let threads: Vec<_> = lanes.into_iter().map(|l| std::thread::spawn(move || lane(l))).collect();
    let mut all = vec![first];
    for t in threads { all.push(t.join().unwrap_or_else(|_| vec!["thread panic".into()])); }
    for (i, l) in all.iter().enumerate() {
        for (j, r) in l.iter().enumerate() { println!("{} {} {}", i, j, r); }
    }
}

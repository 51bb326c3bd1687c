//! Documents, files and faults drawn from one random stream.
use crate::case::*;
use crate::util::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum VK { Lit, List,
    /// A structure of whatever shape.
    Data }

/// What the next document may use.
#[derive(Clone, Default)]
pub struct Feats {
    pub include: bool,
    pub embed: bool,
    pub log: bool,
    pub env: bool,
    pub date: bool,
    pub clock: bool,
    pub glob: bool,
    pub data: bool,
    pub sort: bool,
    pub lambda: bool,
    pub control: bool,
    pub namespace: bool,
    pub multiline: bool,
    pub unicode: bool,
    pub pre: bool,
    /// Files everywhere.
    pub heavy: bool,
    /// Default listing order, lambda names and the like, which the model leaves open.
    pub loose: bool,
    /// Chance per thousand of lists hundreds of levels deep.
    pub deep: u32,
    /// Chance in percent that a place holds something invalid.
    pub err: u32,
}

impl Feats {
    pub fn all() -> Feats {
        Feats { include: true, embed: true, log: true, env: true, date: true, clock: false, glob: true, data: true, sort: true,
            lambda: true, control: true, namespace: true, multiline: true, unicode: true, pre: true, heavy: false, loose: false, deep: 0, err: 0 }
    }
    /// A random part of these.
    pub fn some(mut self, r: &mut Rng) -> Feats {
        for f in [&mut self.include, &mut self.embed, &mut self.log, &mut self.env, &mut self.date, &mut self.glob, &mut self.data,
            &mut self.sort, &mut self.lambda, &mut self.control, &mut self.namespace, &mut self.multiline, &mut self.unicode, &mut self.pre] {
            if r.chance(40) { *f = false; }
        }
        if self.heavy { self.include = true; }
        self
    }
}

#[derive(Clone)]
pub struct Mac { name: String, params: usize, extra: Extra }

#[derive(Clone, Copy, PartialEq)]
pub enum Extra { No, Opt, Rest, Kw, UnusedOpt, UnusedRest, UnusedKw }

pub struct Gen<'a> {
    pub r: Rng,
    pub case: &'a mut Case,
    pub f: Feats,
    pub target: &'static str,
    pub vars: Vec<(String, VK)>,
    pub macros: Vec<Mac>,
    /// Macros for the body of the document.
    pub shapes: Vec<String>,
    /// Variables that hold a macro of one argument.
    pub lams: Vec<String>,
    /// Namespaces opened so far, with separator.
    pub spaces: Vec<(String, &'static str)>,
    /// Files that may be named once more: defines only, form, names in scope.
    pub again: Vec<(bool, String, Vec<String>)>,
    /// Directories files may be put in, as the command sees them, "." first.
    pub dirs: Vec<String>,
    pub env: Vec<(String, String)>,
    pub globs: Vec<String>,
    pub uid: u32,
    pub depth: u32,
    pub left: i32,
    pub in_include: u32,
    /// One long loop in a case is enough: nested they only burn time.
    pub long: bool,
}

pub const TARGETS: [&str; 5] = ["text", "sexp", "html", "xml", "css"];
const WORDS: [&str; 14] = ["alpha", "beta", "gamma", "delta", "omega", "x", "y1", "foo-bar", "lorem", "ipsum", "dolor", "sit", "amet", "z_z"];
const UNI: [&str; 6] = ["é", "日本", "λx", "ñandú", "😀", "“q”"];
const CTRL: [&str; 5] = ["\u{1a}", "\u{4}", "\u{0}", "\u{c}", "\u{7f}"];
/// What other kinds of files begin with.
const HEADS: [&str; 12] = ["#!a b\n", "#x\n", "//y\n", "<?z\n", "---\n", "@c d\n", "#!/bin/x\n", "\n\n", "<!--\n", "#\n", "-*-\n", "=\n"];
const ODD: [&str; 7] = ["<b>", "a&b", "it's", "x>y", "100%", "a=b", "c\\\\d"];

impl<'a> Gen<'a> {
    pub fn new(case: &'a mut Case, r: Rng, target: &'static str, f: Feats) -> Self {
        Gen { r, case, f, target, vars: vec![], macros: vec![], shapes: vec![], lams: vec![], spaces: vec![], again: vec![], dirs: vec![".".into()], env: vec![], globs: vec![], uid: 0, depth: 0, left: 60, in_include: 0, long: false }
    }
    fn id(&mut self) -> u32 { self.uid += 1; self.uid }
    pub fn abs(&self, p: &str) -> String { if p.starts_with('/') { norm_path(p) } else { norm_path(&format!("{}/{}", self.case.cwd, p)) } }

    /// A name; long or not of this alphabet now and then.
    fn tail(&mut self) -> String {
        if !self.f.unicode || self.r.chance(80) { return String::new(); }
        let mut s = String::new();
        let n = if self.r.chance(30) { 30 } else { 5 };
        for _ in 0..1 + self.r.below(n) { s += ["x", "ab", "_", "é", "日", "😀", "name", "\u{feff}", "ñ"][self.r.below(9)]; }
        s
    }
    pub fn word(&mut self) -> String { self.r.pick(&WORDS).to_string() }
    pub fn ws(&mut self) -> String {
        match self.r.below(if self.f.multiline { 16 } else { 8 }) {
            8 => "\n".into(),
            9 => "\n  ".into(),
            10 => "\n\n".into(),
            11 => format!(" ; {} (\"\n", self.word()),
            12 => "  ".into(),
            13 => "\n\t".into(),
            14 => [";\n", " ;\n", "\n;\n", ";;\n ;\n", " ; é\"\n"][self.r.below(5)].into(),
            15 => ["\r\n", " \n \n", "\t", ";(\r\n"][self.r.below(4)].into(),
            _ => " ".into(),
        }
    }
    pub fn number(&mut self) -> String {
        match self.r.below(6) {
            0 => format!("{}", self.r.range(-20, 20)),
            1 => format!("{}.{}", self.r.range(-9, 99), self.r.below(100)),
            2 => format!("{}", self.r.range(0, 1_000_000)),
            _ => format!("{}", self.r.below(10)),
        }
    }
    /// A quoted string.
    pub fn string(&mut self) -> String {
        let mut s = String::new();
        let n = self.r.below(4);
        for i in 0..n {
            if i > 0 { s.push(' '); }
            match self.r.below(12) {
                0 if self.f.unicode => s += self.r.pick::<&str>(&UNI),
                1 if self.f.unicode && self.r.chance(15) => s += self.r.pick::<&str>(&CTRL),
                1 => s += self.r.pick::<&str>(&ODD),
                2 => s += "\\\"q\\\"",
                3 if self.f.multiline => s += "line\nbreak",
                4 => s += "tab\\tnl\\n",
                5 => s += "\\u{e9}",
                6 => s += "(;)",
                _ => s += &self.word(),
            }
        }
        if self.f.multiline && self.r.chance(8) { return match self.r.below(4) {
            0 => format!("\"\"\"{} \\\"\"\" {}\\\\\"\"\"", s, self.word()),
            1 => format!("\"\"\"\"{}\" \"\"\\\"{}\"\"\"", s, self.word()),
            _ => format!("\"\"\"{}\n\"in\" {}\"\"\"", s, self.word()),
        }; }
        format!("\"{}\"", s)
    }
    pub fn var(&mut self, k: VK) -> Option<String> {
        let v: Vec<&(String, VK)> = self.vars.iter().filter(|v| v.1 == k).collect();
        if v.is_empty() { None } else { Some(v[self.r.below(v.len())].0.clone()) }
    }

    /// An expression with exactly one literal as its value.
    pub fn lit(&mut self) -> String {
        self.left -= 1;
        if self.f.err > 0 && self.r.chance(self.f.err) { return self.bad(); }
        if self.depth > 4 || self.left < 0 { return self.word(); }
        self.depth += 1;
        let s = match self.r.below(31) {
            0..=4 => self.word(),
            5 | 6 => self.number(),
            7..=9 => self.string(),
            10 | 11 => self.var(VK::Lit).map_or_else(|| self.word(), |v| format!("%{}", v)),
            12 => format!("(%concat {} {})", self.lit(), self.lit()),
            13 => format!("(%join {} {} {}{})", self.string(), self.lit(), self.lit(), if self.r.chance(30) { " :trailing true" } else { "" }),
            14 => format!("(%string {}{}{})", self.lit(), self.ws(), self.lit()),
            15 if self.f.env && !self.env.is_empty() => { let e = self.r.pick(&self.env).0.clone(); format!("(%os/env {})", self.quote(&e)) },
            16 if self.f.date => self.date(),
            17 if self.f.embed => self.embed(),
            18 if self.r.chance(if self.f.err > 0 { 10 } else { 0 }) => { let t = ["}{", "{", "x}", "{}{", "{a}}", "{{}", "} {}", "{:99999999999}", "{:.99999}", "{b"][self.r.below(10)]; format!("(%format \"{}\" {} :b x)", t, self.number()) },
            18 => format!("(%format \"{{}}-{{name}}\" {} :name {})", self.word(), self.number()),
            19 => format!("(%get {} (%list {} {} :k {}))", ["0", "1", "k"][self.r.below(3)], self.lit(), self.lit(), self.lit()),
            20 if self.f.sort => format!("(%get 0 {})", self.list()),
            21 => format!("(%number {})", self.lit()),
            22 if self.f.control => { let a = self.lit(); let b = self.lit(); let v = self.var(VK::Lit).unwrap_or("nope".into()); format!("(%ifdef {} {} {})", v, a, b) },
            23 if self.f.control => format!("(%match {} (1 {}) ({} {}))", self.number(), self.lit(), "_v", self.lit()),
            24 => match self.mac() { Some(m) => format!("(%string {})", m), None => self.number() },
            25 if !self.lams.is_empty() && self.r.chance(60) => { let l = self.r.pick(&self.lams).clone(); format!("(%apply %{} {})", l, self.lit()) },
            25 if self.f.lambda => format!("(%apply (%lambda (a b) (%concat %b %a)) {} {})", self.lit(), self.lit()),
            26 if self.r.chance(20) => format!("(%symbol \"{}\")", ["%", "%%", "", "(", ":k", "&", "&&r", "a b", "\\\"", ";", "% x", "-", "<i>", "__lambd"][self.r.below(14)]),
            26 => format!("(%symbol {})", self.lit()),
            27 => format!("(%get {}/{} (%list (x {} :a {}) :k (%list {} :a {})))", ["0", "k"][self.r.below(2)], ["a", "a", "1"][self.r.below(3)], self.word(), self.lit(), self.lits(2), self.lit()),
            28 if self.f.control => {
                // Taking a list apart.
                let n = self.id();
                let keep = self.vars.len();
                let (a, b) = (self.lit(), self.lit());
                for v in ["x", "y"] { self.vars.push((format!("{}{}", v, n), VK::Lit)); }
                self.vars.push((format!("r{}", n), VK::List));
                self.vars.pop();
                let body = self.lit();
                self.vars.truncate(keep);
                match self.r.below(4) {
                    0 => format!("(%match (%list {a} {b}) ((x{n}) one) ((x{n} y{n}) {body}) (_ other))"),
                    1 => format!("(%match (%list {a} k {b}) ((1 2 3) no) ((x{n} y{n} &r{n}) (%string {body} %r{n})))"),
                    2 => format!("(%match (t {a} :k {b}) ((t :z 3) {a}) ((t x{n} :k y{n}) (%concat %x{n} %k)) (_ {b}))"),
                    _ => format!("(%match (1 {a} \"s\") ((2 x{n} &_) no) ((1 x{n} \"t\") no) ((1 x{n} y{n}) {body}))"),
                }
            },
            29 if self.f.date => self.stamp(),
            30 => format!("(%join {} (%splat {}))", self.string(), self.list()),
            _ => self.string(),
        };
        self.depth -= 1;
        s
    }
    /// A call of a macro whose value is literals.
    fn mac(&mut self) -> Option<String> {
        if self.macros.is_empty() { return None; }
        let i = self.r.below(self.macros.len());
        let m = self.macros[i].clone();
        let mut s = format!("(%{}", m.name);
        let kw = |g: &mut Self, s: &mut String, k: &str| { *s += &format!(" :{} {}", k, g.lit()); };
        let early = self.r.chance(40);
        if m.extra == Extra::Opt && early && self.r.chance(70) { kw(self, &mut s, "opt"); }
        else if m.extra == Extra::UnusedOpt && self.r.chance(50) { kw(self, &mut s, "opt"); }
        else if m.extra == Extra::Kw && early { kw(self, &mut s, "ka"); }
        for _ in 0..m.params { s += " "; s += &self.lit(); }
        match m.extra {
            Extra::Opt if !early && self.r.chance(60) => kw(self, &mut s, "opt"),
            Extra::Rest | Extra::UnusedRest => for _ in 0..self.r.below(3) { s += " "; s += &self.lit(); },
            Extra::Kw => { if !early { kw(self, &mut s, "ka"); } if self.r.chance(50) { kw(self, &mut s, "kb"); } },
            Extra::UnusedKw if self.r.chance(50) => kw(self, &mut s, "kc"),
            _ => {},
        }
        Some(s + ")")
    }
    pub fn quote(&self, s: &str) -> String {
        let mut o = String::from("\"");
        for c in s.chars() {
            match c { '"' => o += "\\\"", '\\' => o += "\\\\", c => o.push(c) }
        }
        o + "\""
    }

    /// An expression with one list of literals as its value.
    pub fn list(&mut self) -> String {
        self.left -= 1;
        self.depth += 1;
        let s = match self.r.below(13) {
            0 | 1 if self.f.sort => format!("(%sort (%list {}{}){})", self.lits(5), if self.r.chance(30) { self.word() } else { String::new() },
                [" :order descending", " :order ascending", "", ""][self.r.below(4)]),
            2 => format!("(%reverse {})", self.list_d()),
            3 => match self.var(VK::List) { Some(v) => format!("%{}", v), None => format!("(%list {})", self.lits(3)) },
            4 if self.f.glob && !self.globs.is_empty() => self.glob(),
            5 if self.f.sort && self.f.lambda => format!("(%sort (%list {}) :key (%lambda (n) (%concat {} %n)))", self.lits(4), self.word()),
            6 if !self.lams.is_empty() && self.r.chance(60) => { let l = self.r.pick(&self.lams).clone(); format!("(%list (%map %{} {}))", l, self.lits(3)) },
            6 if self.f.lambda => format!("(%list (%map (%lambda (n) (%concat %n {})) {}))", self.word(), self.lits(3)),
            7 if self.r.chance(40) => match self.mac1() { Some(m) => format!("(%list (%filter {} {}))", m, self.lits(3)), None => self.list_d() },
            7 => format!("(%list (%filter do {} () {}))", self.lits(2), self.lits(2)),
            8 => match self.mac1() { Some(m) => format!("(%list (%map {} {}))", m, self.lits(3)), None => format!("(%list {})", self.lits(2)) },
            9 if self.f.sort => match self.mac1() { Some(m) => format!("(%sort (%list {}) :key {}{})", self.lits(4), m, [" :order descending", ""][self.r.below(2)]), None => self.list_d() },
            10 if self.f.control => format!("(%list (%for (a b) in ((%list {} {}) (%list {} {})) (%concat %a %b)))", self.lit(), self.lit(), self.lit(), self.lit()),
            11 => format!("(%list (%splat {}) {})", self.list_d(), self.lit()),
            12 => format!("(%reverse (%list {} {}))", self.lit(), self.lits(3)),
            _ => format!("(%list {})", self.lits(4)),
        };
        self.depth -= 1;
        s
    }
    /// A macro of exactly one argument.
    fn mac1(&mut self) -> Option<String> {
        let v: Vec<String> = self.macros.iter().filter(|m| m.params == 1 && m.extra != Extra::Kw).map(|m| m.name.clone()).collect();
        if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) }
    }
    fn list_d(&mut self) -> String { if self.depth > 4 { format!("(%list {})", self.word()) } else { self.list() } }
    pub fn lits(&mut self, max: usize) -> String {
        let n = 1 + self.r.below(max);
        let mut s = String::new();
        for i in 0..n {
            if i > 0 { s += &self.ws(); }
            s += &if self.r.chance(60) { if self.r.chance(50) { self.word() } else { self.number() } } else { self.lit() };
        }
        s
    }

    pub fn date(&mut self) -> String {
        let fmt = ["%Y-%m-%d %H:%M:%S", "%F", "%T", "%A %e %B %Y", "%s", "%H:%M %z", "%j", "%d/%m/%y", "%I:%M %p", "%%%b %a", "%FT%T%:z"][self.r.below(11)];
        let tz = match self.r.below(5) { 0 => " :timezone 0", 1 => " :timezone -5", 2 => " :timezone 5.5", 3 => " :timezone +13.75", _ => "" };
        if self.r.chance(45) {
            let t = match self.r.below(4) { 0 => self.r.range(-2_000_000_000, 4_000_000_000), 1 => self.r.range(0, 86400), _ => self.r.range(1_500_000_000, 1_700_000_000) };
            format!("(%date \"{}\" {}{})", fmt, t, tz)
        } else {
            format!("(%date \"{}\"{})", fmt, tz)
        }
    }
    pub fn stamp(&mut self) -> String {
        let t = self.r.range(0, 2_000_000_000);
        let (y, m, d) = crate::model::time::civil(t / 86400);
        format!("(%timestamp \"%Y-%m-%d %H:%M:%S\" \"{:04}-{:02}-{:02} {:02}:{:02}:{:02}\"{})", y, m, d, t / 3600 % 24, t / 60 % 60, t % 60,
            [" :timezone 0", " :timezone -3.5", " :timezone 9"][self.r.below(3)])
    }
    pub fn glob(&mut self) -> String {
        let g = self.r.pick(&self.globs).clone();
        let ty = ["", " :type file", " :type directory", " :type any"][self.r.below(4)];
        if self.f.loose && self.r.chance(50) { return format!("(%list (%glob {}{}))", self.quote(&g), ty); }
        if self.r.chance(25) { return format!("(%sort (%list (%glob {}{})))", self.quote(&g), ty); }
        let sort = ["name", "modified", "created", "type"][self.r.below(4)];
        let ord = ["", " :order descending", " :order ascending"][self.r.below(3)];
        format!("(%list (%glob {} :sort {}{}{}))", self.quote(&g), sort, ty, ord)
    }

    /// Put a file somewhere it will be found; how the document names it.
    pub fn place(&mut self, ext: &str, data: Vec<u8>) -> String {
        let name = format!("f{}{}", self.id(), ext);
        let sub = match self.r.below(6) { 0 => "sub/", 1 => "./", 2 if self.dirs.len() > 1 => "./sub/", _ => "" };
        let dir = self.r.pick(&self.dirs).clone();
        let p = self.abs(&format!("{}/{}{}", dir, sub, name));
        self.case.put(&p, data);
        if self.r.chance(5) { return p; }
        format!("{}{}", sub, name)
    }
    pub fn blob(&mut self) -> String {
        let mut s = String::new();
        if self.r.chance(8) { s += self.r.pick::<&str>(&HEADS); }
        for _ in 0..self.r.below(6) {
            match self.r.below(8) {
                0 => s += "\n",
                1 if self.f.unicode => s += self.r.pick::<&str>(&UNI),
                2 => s += self.r.pick::<&str>(&["<&>", "\"'", "(", ")", ";", "%x", "\\", "\r\n"]),
                _ => { s += &self.word(); s.push(' '); },
            }
        }
        s
    }
    /// Texts of one length with the same beginning.
    fn alike(&mut self) -> String {
        let w = ["alpha", "gamma", "delta", "omega", "lorem", "ipsum", "dolor"][self.r.below(7)];
        format!("{}{}", ["", "same same ", "it begins just like all of the others, and goes on "][self.r.below(3)], w)
    }
    pub fn embed(&mut self) -> String {
        if self.r.chance(15) {
            let v: Vec<&String> = self.again.iter().filter(|a| a.1.starts_with("(%embed")).map(|a| &a.1).collect();
            if !v.is_empty() { return self.r.pick(&v).to_string(); }
        }
        let b = if self.r.chance(10) { self.alike() } else if self.r.chance(70) { self.word() } else { self.blob() };
        let ext = ["", ".txt", ".dat"][self.r.below(3)];
        let n = self.place(ext, b.into_bytes());
        let f = format!("(%embed {})", self.path(&n));
        self.again.push((false, f.clone(), vec![]));
        f
    }
    fn scope(&self) -> Vec<String> {
        self.vars.iter().map(|v| v.0.clone()).chain(self.macros.iter().map(|m| m.name.clone())).chain(self.shapes.iter().cloned()).chain(self.lams.iter().cloned()).collect()
    }
    pub fn path(&mut self, n: &str) -> String {
        if self.r.chance(15) && !n.contains(['(', ')', '"', ' ']) && n.starts_with('f') { n.to_string() }
        else if self.r.chance(15) { format!("(%concat {} {})", self.quote(&n[..1]), self.quote(&n[1..])) }
        else { self.quote(n) }
    }
    /// Include a new file; `content` says whether it may produce anything.
    pub fn include(&mut self, stmt: bool) -> String {
        if self.r.chance(18) {
            let now = self.scope();
            let v: Vec<&String> = self.again.iter().filter(|a| a.0 == stmt && a.1.starts_with("(%include") && a.2.iter().all(|n| now.contains(n))).map(|a| &a.1).collect();
            if !v.is_empty() { return self.r.pick(&v).to_string(); }
        }
        let frame = self.scope();
        self.in_include += 1;
        let mut body = String::new();
        if self.f.multiline && self.r.chance(20) { body += "; head\n"; }
        let n = 1 + self.r.below(3);
        let head = !stmt && self.target != "css" && self.r.chance(6);
        if head { body = if self.r.chance(40) { format!("{}\n", self.alike().replace(", ", " ")) } else { self.r.pick(&HEADS).to_string() } + &body; }
        for i in 0..n {
            if i > 0 { body += &self.ws(); }
            let s = if stmt { self.stmt() } else { self.item() };
            body += &s;
        }
        self.in_include -= 1;
        if self.r.chance(50) { body += "\n"; }
        let ext = ["", ".sex", ".inc"][self.r.below(3)];
        let mut name = self.place(ext, body.into_bytes());
        if ext == ".sex" && self.r.chance(60) { name = name.trim_end_matches(".sex").to_string(); }
        let f = format!("(%include {})", self.path(&name));
        self.again.push((stmt, f.clone(), frame));
        f
    }

    /// Something that defines and produces nothing.
    pub fn stmt(&mut self) -> String {
        self.left -= 1;
        self.depth += 1;
        let n = self.id();
        let s = match if self.f.heavy && self.r.chance(25) { 8 } else { self.r.below(18) } {
            0..=2 => { let v = self.lit(); let k = format!("v{}{}", n, self.tail()); self.vars.push((k.clone(), VK::Lit)); format!("(%define {} {})", k, v) },
            3 => { let v = self.list(); self.vars.push((format!("l{}", n), VK::List)); format!("(%define l{} {})", n, v) },
            4 | 5 => {
                let k = self.r.below(3);
                let names: Vec<String> = (0..k).map(|i| format!("p{}", i)).collect();
                let keep = self.vars.len();
                for p in &names { self.vars.push((p.clone(), VK::Lit)); }
                let extra = [Extra::No, Extra::No, Extra::No, Extra::Opt, Extra::Rest, Extra::Kw, Extra::UnusedOpt, Extra::UnusedRest, Extra::UnusedKw][self.r.below(9)];
                if extra == Extra::Opt { self.vars.push(("opt".into(), VK::Lit)); }
                let mut body = self.lit();
                match extra {
                    Extra::Opt => body = format!("(%concat {} %opt)", body),
                    Extra::Rest => body = format!("(%string {} %rest)", body),
                    Extra::Kw => body = format!("(%concat {} (%get ka (%list %kw)))", body),
                    _ => {},
                }
                if self.f.log && self.r.chance(20) { body = format!("{} {}", self.log(), body); }
                self.vars.truncate(keep);
                self.macros.push(Mac { name: format!("m{}", n), params: k, extra });
                let extra = match extra { Extra::Opt | Extra::UnusedOpt => format!(" :opt {}", self.word()), Extra::Rest | Extra::UnusedRest => " &rest".into(), Extra::Kw | Extra::UnusedKw => " &&kw".into(), Extra::No => String::new() };
                format!("(%define (m{}{}{}{})\n  {})", n, if k > 0 { " " } else { "" }, names.join(" "), extra, body)
            },
            6 | 7 if self.f.log => self.log(),
            8 if self.f.include && self.in_include < 3 => self.include(true),
            9 | 13 if self.f.namespace && self.spaces.len() < 5 => self.namespace(n),
            10 | 11 if self.f.data => self.data(n),
            14 => {
                // Once more, perhaps in terms of what it was.
                let Some(v) = self.var(VK::Lit) else { self.depth -= 1; return format!("(%define v0 {})", self.word()) };
                if v.contains(['/', '.', '-']) { let x = self.lit(); self.vars.push((format!("v{}", n), VK::Lit)); format!("(%define v{} {})", n, x) }
                else if self.r.chance(50) { format!("(%define {v} (%concat %{v} {}))", self.word()) }
                else { let x = self.lit(); format!("(%define {v} {x})") }
            },
            15 if self.depth < 3 => {
                // A macro that yields part of the document.
                let keep = self.vars.len();
                self.vars.push(("p0".into(), VK::Lit));
                let b = self.item();
                self.vars.truncate(keep);
                self.shapes.push(format!("s{}", n));
                format!("(%define (s{} p0) {})", n, b)
            },
            16 if self.f.control && self.depth < 3 && self.r.chance(60) => {
                // Definitions that stay inside.
                let keep = (self.vars.len(), self.macros.len(), self.shapes.len(), self.lams.len());
                let v = format!("i{}", n);
                let l = self.lits(3);
                self.vars.push((v.clone(), VK::Lit));
                let mut s = format!("(%for {} in ({})", v, l);
                for _ in 0..1 + self.r.below(2) { s += " "; s += &self.stmt(); }
                self.vars.truncate(keep.0); self.macros.truncate(keep.1); self.shapes.truncate(keep.2); self.lams.truncate(keep.3);
                s + ")"
            },
            17 if self.f.lambda && self.in_include == 0 && self.depth < 3 && self.r.chance(50) => {
                // Macros without a name, at the same place of different files.
                let mut s = "(%do".to_string();
                let keep = self.vars.len();
                self.vars.push(("x".into(), VK::Lit));
                let depth = std::mem::replace(&mut self.depth, 4);
                for i in 0..1 + self.r.below(3) {
                    let l = format!("lam{}_{}", n, i);
                    let b = format!("(%define {} (%lambda (x) (%concat {} %x {})))", l, self.word(), self.lit());
                    if self.f.include && self.r.chance(80) {
                        let f = self.place("", b.into_bytes());
                        s += &format!(" (%include {})", self.quote(&f));
                    } else { s += " "; s += &b; }
                    self.lams.push(l);
                }
                self.depth = depth;
                self.vars.truncate(keep);
                s + ")"
            },
            17 if self.f.control && self.depth < 3 => format!("(%do {} {})", self.stmt(), self.stmt()),
            _ => { let v = self.lit(); self.vars.push((format!("v{}", n), VK::Lit)); format!("(%define v{} {})", n, v) },
        };
        self.depth -= 1;
        s
    }
    /// Definitions with a prefix.
    fn namespace(&mut self, n: u32) -> String {
        let (name, sep) = if !self.spaces.is_empty() && self.r.chance(45) { self.r.pick(&self.spaces).clone() }
            else { (format!("n{}", n), ["/", "/", "-", "."][self.r.below(4)]) };
        self.spaces.push((name.clone(), sep));
        let keep = (self.vars.len(), self.macros.len(), self.shapes.len(), self.lams.len());
        let mut s = format!("(%namespace {}{}", name, if sep == "/" { String::new() } else { format!(" :separator \"{}\"", sep) });
        if self.r.chance(60) {
            let v = self.lit();
            s += &format!(" (%define w {})", v);
            self.vars.push(("w".into(), VK::Lit));
        }
        // What it holds already, anew.
        let full = format!("{}{}", name, sep);
        let old: Vec<String> = self.vars.iter().filter(|v| v.1 == VK::Lit).filter_map(|v| v.0.strip_prefix(&full)).filter(|t| !t.contains(['/', '-', '.'])).map(|t| t.to_string()).collect();
        if !old.is_empty() && self.r.chance(60) {
            let (k, v) = (self.r.pick(&old).clone(), self.lit());
            s += &format!(" (%define {} {})", k, v);
            self.vars.push((k, VK::Lit));
        }
        if self.depth < 4 { for _ in 0..self.r.below(3) { s += &self.ws(); s += &self.stmt(); } }
        // Outside they go by their full names.
        for v in &mut self.vars[keep.0..] { v.0 = format!("{}{}{}", name, sep, v.0); }
        for m in &mut self.macros[keep.1..] { m.name = format!("{}{}{}", name, sep, m.name); }
        for m in &mut self.lams[keep.3..] { *m = format!("{}{}{}", name, sep, m); }
        for m in &mut self.shapes[keep.2..] { *m = format!("{}{}{}", name, sep, m); }
        s + ")"
    }
    pub fn log(&mut self) -> String {
        let n = self.id();
        if self.r.chance(15) { return format!("(%log msg{})", n); }
        format!("(%log msg{} {})", n, self.lit())
    }
    pub fn data(&mut self, n: u32) -> String {
        let (a, b) = (format!("d{}a", n), format!("d{}b", n));
        let (v, w) = (self.word(), self.r.below(1000));
        let kind = self.r.below(4);
        // More of it, in any order.
        let more: Vec<(String, String)> = (0..if self.r.chance(40) { self.r.below(7) } else { 0 }).map(|i| (format!("{}{}{}", ["z", "k", "A", "e"][self.r.below(4)], n, (b'a' + i as u8) as char), self.word())).collect();
        let rows = |f: &dyn Fn(&str, &str) -> String| more.iter().map(|(k, v)| f(k, v)).collect::<String>();
        let text = match kind {
            0 => format!("{{{}\"{}\": \"{}\", \"{}\": {{\"in\": [{}, \"{}\"]}}}}\n", rows(&|k, v| format!("\"{}\": \"{}\",", k, v)), a, v, b, w, v),
            1 => format!("{}{}: {}\n{}:\n  in:\n    - {}\n    - {}\n", rows(&|k, v| format!("{}: {}\n", k, v)), a, v, b, w, v),
            2 => format!("{}{} = \"{}\"\n[{}]\nin = [{}, \"{}\"]\n", rows(&|k, v| format!("{} = \"{}\"\n", k, v)), a, v, b, w, v),
            _ => format!("---\n{}: {}\n{}:\n  in:\n    - {}\n    - {}\n---\nHello world\n", a, v, b, w, v),
        };
        self.vars.push((a, VK::Lit));
        self.vars.push((format!("{}/in/0", b), VK::Lit));
        self.vars.push((format!("{}/in/1", b), VK::Lit));
        self.vars.push((format!("{}/in", b), VK::List));
        let src = if self.r.chance(70) {
            let f = self.place([".json", ".yml", ".toml", ".md"][kind], text.into_bytes());
            format!("(%embed {})", self.path(&f))
        } else { self.quote(&text) };
        let d = if self.r.chance(50) { "_d".to_string() } else { format!("_d{}", n) };
        if kind < 3 && d != "_d" { self.vars.push((d.clone(), VK::Data)); }
        match kind {
            0 => format!("(%define {d} (%json {}))", src),
            1 => format!("(%define {d} (%yaml {}))", src),
            2 => format!("(%define {d} (%toml {}))", src),
            _ if self.r.chance(15) => format!("(%define _d (%markdown {}))", src),
            _ => format!("(%markdown {} :only frontmatter)", src),
        }
        // Defining inside %define's eager body puts the variables in scope here.
    }

    /// Something that may stand in the output of the target.
    pub fn item(&mut self) -> String {
        self.left -= 1;
        if self.f.err > 0 && self.r.chance(self.f.err) { return self.bad(); }
        if self.target == "css" { return self.rule(); }
        if self.depth > 4 || self.left < 0 { return self.word(); }
        self.depth += 1;
        let s = match if self.f.heavy && self.r.chance(35) { 3 } else { self.r.below(20) } {
            0..=2 => self.lit(),
            3 | 4 if self.f.include && self.in_include < 3 => self.include(false),
            5 if self.f.control => {
                let v = format!("i{}", self.id());
                let keep = self.vars.len();
                let l = self.lits(4);
                self.vars.push((v.clone(), VK::Lit));
                let b = self.item();
                self.vars.truncate(keep);
                format!("(%for {} in ({}) {})", v, l, b)
            },
            6 if self.f.control && !self.long && self.r.chance(8) => {
                self.long = true;
                // A long loop.
                let v = format!("i{}", self.id());
                let keep = self.vars.len();
                self.vars.push((v.clone(), VK::Lit));
                let left = std::mem::replace(&mut self.left, 3);
                let (b, n) = (self.item(), 30 + self.r.below(90));
                self.left = left;
                self.vars.truncate(keep);
                let l: Vec<String> = (0..n).map(|i| i.to_string()).collect();
                format!("(%for {} in ({}) {})", v, l.join(" "), b)
            },
            6 if self.f.control => format!("(%do {} {})", self.item(), self.lit()),
            7 if self.f.log && self.r.chance(60) => self.log(),
            8 if self.f.control => { let (a, b) = (self.item(), self.item()); format!("(%ifdef {} {} {})", self.var(VK::Lit).unwrap_or("nope".into()), a, b) },
            9 if self.f.sort || self.f.glob => format!("(%join \", \" (%splat {}))", self.list()),
            10 => match self.mac() { Some(m) => m, None => self.lit() },
            11 if self.f.control => format!("(%match {} ((a &r) none) (_ {}))", self.lit(), self.item()),
            12 => format!("(%strip {})", self.lit()),
            13 if matches!(self.target, "html" | "text" | "sexp") => format!("(%raw {} \"<i>\")", self.lit()),
            14 | 15 if !self.shapes.is_empty() => format!("(%{} {})", self.r.pick(&self.shapes).clone(), self.lit()),
            16 if self.f.control => format!("(%for (a b) in ((%list {} {}) (x y)) (i %a) {})", self.lit(), self.lit(), self.item()),
            17 if self.f.loose && self.f.lambda => match self.r.below(3) { 0 => format!("(%lambda (x) {})", self.word()), 1 => format!("(%log msg{} (%lambda q %q))", self.id()), _ => { let u = self.id(); format!("(%define lam{u} (%lambda x (%concat %x {}))) %lam{u}", self.word()) } },
            17 if self.f.include && self.in_include < 3 => self.include(false),
            18 if matches!(self.target, "text" | "sexp") => match self.var(VK::Data) { Some(v) => format!("%{}", v), None => self.tag() },
            _ => self.tag(),
        };
        self.depth -= 1;
        s
    }
    fn tag(&mut self) -> String {
        let html = self.target == "html";
        let k = self.r.below(16);
        if html && k == 0 { return format!("({}{}{})", ["br", "hr", "img", "BR", "Link", "wbr"][self.r.below(6)], if self.r.chance(50) { " :class c" } else { "" }, if self.r.chance(20) { format!("{}:src {}", self.ws(), self.lit()) } else { String::new() }); }
        if html && k == 1 { return format!("({} {} {}{})", ["title", "textarea", "Title"][self.r.below(3)], self.word(), self.lit(), ["", " (b :k v w)"][self.r.below(2)]); }
        if html && k == 2 {
            return match self.r.below(4) {
                0 => format!("(style {})", self.string()),
                1 => { let (a, b) = (self.rule(), self.rule()); format!("(style{}{}{}{})", self.ws(), a, self.ws(), b) },
                2 if self.f.multiline => format!("(style :media print\n{}\n)", self.rule()),
                _ => format!("(style {})", self.rule()),
            };
        }
        if html && k == 3 { return format!("(script {}(f {} \"s\"){})", ["", ":src x "][self.r.below(2)], self.word(), if self.r.chance(40) { format!("{}{}", self.ws(), self.lit()) } else { String::new() }); }
        if html && k == 4 { return format!("({} (g :id {} {}){})", ["svg", "math", "SVG"][self.r.below(3)], self.word(), self.lit(), if self.r.chance(40) { format!("{}(br a)", self.ws()) } else { String::new() }); }
        if html && k == 5 && self.f.pre && self.in_include == 0 { return format!("(pre{} a  b{}c{})", ["", "", " :class p"][self.r.below(3)], self.ws(), ["", "", " ", " (b x)\n"][self.r.below(if self.f.multiline { 4 } else { 3 })]); }
        if html && k == 6 && self.r.chance(30) { return format!("(!{} {} {})", ["doctype", "--", "x"][self.r.below(3)], self.word(), self.lit()); }
        if self.target == "xml" && k < 2 { return format!("({} :version {} :k {}{})", ["?pi", "!entity", "?xml-stylesheet", "!"][self.r.below(4)], self.lit(), self.word(), ["", " w"][self.r.below(2)]); }
        if self.f.err > 0 && k == 7 && self.r.chance(60) {
            let l = self.lit();
            let w = self.ws();
            let i = self.item();
            return [format!("(br {}{}{}{})", l, w, i, self.ws()), format!("(hr{}{}{}{})", w, i, self.ws(), l), format!("(img :src x{}(i{}{}){})", w, w, l, self.ws()), format!("(p :k (a {}) b)", l), format!("(p a :late {})", l), format!("({} x)", self.string()), "()".into(), format!("(1 {})", l), "(!doctype (a))".into(), "(?x (y))".into(),
                format!("(style {} (p :a b))", l), "(style p)".into(), ":loose attr".into()][self.r.below(13)].clone();
        }
        let t = if matches!(self.target, "html" | "xml") { ["p", "div", "span", "ul", "li", "a", "h1"][self.r.below(7)].to_string() } else { self.word() };
        let mut s = format!("({}", t);
        for i in 0..self.r.below(3) {
            let k = ["class", "id", "href"][i];
            let v = match self.r.below(4) { 0 => self.word(), 1 => self.number(), 2 => format!("\"{}\"", self.word()), _ => self.lit() };
            s += &format!("{}:{} {}", self.ws(), k, v);
        }
        for _ in 0..self.r.below(4) { s += &self.ws(); s += &self.item(); }
        if self.f.multiline && self.r.chance(20) { s += "\n"; }
        s + ")"
    }
    fn selector(&mut self) -> String {
        match self.r.below(9) {
            0 => ".c".into(),
            1 => "#id".into(),
            2 => "a:hover".into(),
            3 => "ul li".into(),
            4 => "p > em".into(),
            5 => "\"a, b\"".into(),
            6 => self.var(VK::Lit).map_or_else(|| "td".into(), |v| format!("%{}", v)),
            7 => "@page".into(),
            _ => "p".into(),
        }
    }
    /// The value of a property.
    fn css_value(&mut self) -> String {
        if self.depth > 6 { return self.word(); }
        self.depth += 1;
        let s = match self.r.below(13) {
            0 => format!("(calc (+ {} {}))", self.number(), self.number()),
            1 => format!("(rgba {} 2 3 0.5)", self.r.below(255)),
            2 | 3 => self.lit(),
            4 => format!("(1px solid {})", self.css_value()),
            5 => format!("({} {} {} {})", ["+", "-", "*", "/"][self.r.below(4)], self.number(), self.css_value(), self.word()),
            6 => format!("({} {} {})", ["hsla", "hsl", "url", "var", "translateX", "matrix3d", "supports"][self.r.below(7)], self.css_value(), self.number()),
            7 => format!("(%raw \"{} (\\\"q\\\")\")", self.word()),
            8 => format!("({} {})", ["foo", "url-x", "ease", "Rgb"][self.r.below(4)], self.css_value()),
            9 => format!("\"{} {}\"", self.word(), self.word()),
            10 => format!("({})", ["rgba", "+", "calc", "x"][self.r.below(4)]),
            _ => self.word(),
        };
        self.depth -= 1;
        s
    }
    fn rule(&mut self) -> String {
        if self.depth < 6 && self.r.chance(18) { return self.at_rule(); }
        let mut s = format!("({}", self.selector());
        for i in 0..1 + self.r.below(3) {
            s += &format!("{}:{} {}", self.ws(), ["color", "margin", "width"][i], self.css_value());
        }
        if self.f.multiline && self.r.chance(15) { s += "\n"; }
        s + ")"
    }
    fn at_rule(&mut self) -> String {
        self.depth += 1;
        let s = match self.r.below(6) {
            0 => format!("(@charset {})", self.lit()),
            1 => format!("(@import {} {})", self.css_value(), self.lit()),
            2 => format!("(@namespace svg :x {} (url {}))", self.css_value(), self.word()),
            3 => { let mut s = "(@font-face".to_string(); for k in ["family", "src"] { s += &format!("{}:{} {}", self.ws(), k, self.css_value()); } s + ")" },
            k => {
                let mut s = format!("({}", ["@media", "@supports", "@keyframes", "@document", "@counter-style"][self.r.below(5)]);
                if k == 4 { s += " screen and"; }
                for _ in 0..self.r.below(3) { s += &format!("{}:min {}", self.ws(), self.css_value()); }
                if self.r.chance(30) { s += " "; s += &self.lit(); }
                for _ in 0..1 + self.r.below(3) { s += &self.ws(); s += &self.rule(); }
                // Not after the rules.
                if self.f.err > 0 && self.r.chance(8) { s += [" late", " :late x"][self.r.below(2)]; }
                if self.f.multiline && self.r.chance(30) { s += "\n"; }
                s + ")"
            },
        };
        self.depth -= 1;
        s
    }

    /// Lists within lists within lists.
    fn nest(&mut self) -> String {
        let n = if self.r.chance(60) { 257 + self.r.below(30) } else { 20 + self.r.below(240) };
        let w = if self.r.chance(30) { self.bad() } else { self.word() };
        let (open, head, tail) = match self.target {
            "css" => ("(calc ", "(p :width ", ")"),
            _ => ([("(p "), "(p\n", "(%do ", "(p x "][self.r.below(4)], "", ""),
        };
        // Macros within macros are another matter.
        let n = if open == "(%do " { n.min(60) } else { n };
        format!("{head}{}{w}{}{tail}", open.repeat(n), ")".repeat(n))
    }
    /// A whole document.
    pub fn doc(&mut self) -> String {
        let mut s = String::new();
        if self.target == "html" && self.r.chance(20) { s += "(!doctype html)\n"; }
        if self.target == "xml" && self.r.chance(20) { s += "(?xml :version \"1.0\")\n"; }
        let n = 1 + self.r.below(6);
        for i in 0..n {
            if i > 0 { s += &if self.r.chance(70) { "\n".to_string() } else { self.ws() }; }
            let t = if self.r.chance(50) { self.stmt() } else { self.item() };
            s += &t;
        }
        if self.target == "css" || self.r.chance(60) { let t = self.item(); s += "\n"; s += &t; }
        if self.target != "css" && self.f.multiline && self.r.chance(2) { s = format!("{}{}", self.r.pick(&HEADS), s); }
        if (self.r.below(1000) as u32) < self.f.deep { let t = self.nest(); s += "\n"; s += &t; }
        if self.r.chance(70) { s += "\n"; }
        // As other systems would write it.
        if self.r.chance(2) { s = s.replace('\n', "\r\n"); }
        if self.f.unicode && self.r.chance(3) { s.insert(0, '\u{feff}'); }
        s
    }

    /// Something a build has to reject.
    /// A call of something built in, with whatever arguments.
    fn misuse(&mut self) -> String {
        let name = *self.r.pick(&["define", "match", "ifdef", "do", "get", "raw", "string", "number", "symbol", "include", "embed", "namespace", "markdown", "yaml", "json", "toml", "for", "sort", "reverse",
            "date", "timestamp", "join", "concat", "map", "filter", "splat", "list", "strip", "apply", "lambda", "format", "os/env", "log", "glob"]);
        let mut s = format!("(%{}", name);
        for _ in 0..self.r.below(5) {
            s += &self.ws();
            s += &match self.r.below(18) {
                0 => format!(":{} {}", ["separator", "order", "key", "type", "only", "timezone", "trailing", "nope"][self.r.below(8)], self.lit()),
                1 => format!(":{} {}", ["order", "only", "trailing", "type", "sort", "timezone"][self.r.below(6)], ["ascending", "descending", "content", "true", "file", "name", "3", "()"][self.r.below(8)]),
                2 => format!(":k ({})", self.word()),
                3 | 4 => self.number(),
                5 | 6 => self.string(),
                7 => "()".into(),
                8 => format!("({} {})", self.word(), self.lit()),
                9 => format!("(%list {})", self.lits(3)),
                10 => format!("({})", self.string()),
                11 => "(%do)".into(),
                12 => ["in", "do", "x", "list", "concat", "lambda", "define", "_", "&r", "&&k"][self.r.below(10)].into(),
                13 => format!("(a &r b &s {})", self.word()),
                14 => format!("(x :k {})", self.word()),
                15 => format!("(%lambda (x) {})", self.lit()),
                16 => "%nowhere".into(),
                _ => self.word(),
            };
        }
        s + ")"
    }
    pub fn bad(&mut self) -> String {
        if self.depth < 6 && self.r.chance(40) { self.depth += 1; let s = self.misuse(); self.depth -= 1; return s; }
        if self.r.chance(25) {
            // Something of the document's own that goes wrong when called.
            let (t, gap) = (self.tail(), ["", " ", "\n", "\n  "][self.r.below(4)]);
            let def = match self.r.below(9) {
                0 => format!("(%define (kz{t} x) (%do))"),
                1 => format!("(%define (kz{t} x) %x %x)"),
                2 => format!("(%define (kz{t} x) (%list %x))"),
                3 => format!("(%define (kz{t} x) (%nonesuch %x))"),
                4 => format!("(%define (kz{t} x y) %x)"),
                5 => format!("(%define (kz{t} :x 1) %x)"),
                6 => format!("(%define (kz{t}) 1)"),
                7 => format!("(%define kz{t} 1 2)"),
                _ => String::new(),
            };
            let call = match self.r.below(8) {
                0 | 1 => format!("(%sort {gap}(%list a{gap} b){gap} :key kz{t})"),
                2 => format!("(%sort (a{gap} b) :order descending{gap} :key kz{t})"),
                3 => format!("(%map{gap} kz{t} a{gap} b)"),
                4 => format!("(%filter kz{t}{gap} a b)"),
                5 => format!("(%kz{t}{gap} a{gap} :c d)"),
                6 => format!("(%apply %kz{t}{gap} a)"),
                _ => format!("(%get {gap}kz/0 (%list{gap} a :kz (b)))(%kz{t} {gap})"),
            };
            return format!("{def}{gap}{call}");
        }
        match self.r.below(22) {
            0 => format!("%undefined_{}", self.tail()),
            1 => format!("(%undefined-{} 1 2)", self.tail()),
            2 => format!("(%include \"no/such.{}\")", self.tail()),
            3 => format!("(%embed nosuch{})", self.tail()),
            4 => format!("(%os/env SEAM_NOT_{})", self.tail()),
            5 => "(%get 7 (%list a b))".into(),
            6 => format!("(%get key{} (a b))", self.tail()),
            7 => "(%join \",\" a (b))".into(),
            8 => "(%sort (%list a (b c)))".into(),
            9 => "(%date \"%Q\")".into(),
            10 => "(%date \"%F\" 5 :timezone 99)".into(),
            11 => "(%json \"[1, 2\")".into(),
            12 => "(%match 1 2)".into(),
            13 => "(%for x of (1 2) %x)".into(),
            14 => "(%format \"{} {}\" one)".into(),
            15 => "(%timestamp \"%F %T\" \"tomorrow\")".into(),
            16 => "(%string ())".into(),
            17 => "\"bad \\q escape\"".into(),
            18 => "(%glob \"a***\")".into(),
            19 => "(%ifdef x)".into(),
            20 => "(%list :k (%do))".into(),
            _ => "(%sort atom)".into(),
        }
    }
}

/* ---------------------------------------------------------------- setup -- */

/// Faults that change nothing: reads in pieces, interrupted calls.
pub fn harmless(r: &mut Rng, run: &mut Run, paths: &[String]) {
    if r.chance(40) {
        let p = if r.chance(50) || paths.is_empty() { "*".to_string() } else { r.pick(paths).clone() };
        let v = (0..1 + r.below(4)).map(|_| 1 + r.below(9) as u32).collect();
        run.dirs.push(Dir::Chunk(p, v));
    }
    if r.chance(30) { run.fault("read", "*", 1 + r.below(6) as i64, 1 + r.below(3) as i64, 4); }
    if r.chance(10) { run.fault("open", "*", 1 + r.below(4) as i64, 1, 4); }
    if r.chance(20) { run.plain(format!("random {}", r.below(1 << 30))); }
    if r.chance(20) { run.plain(format!("heap {} {} {}", r.below(4), 0x41 + r.below(100), r.below(1 << 20))); }
    if r.chance(20) { run.plain(format!("rdseed {}", 1 + r.below(1 << 20))); }
}

pub fn clock(r: &mut Rng) -> String {
    let t = match r.below(9) {
        0 => r.range(0, 100_000),
        8 => [r.range(-3, 2), r.range(-2_500_000_000, -1), r.range(7_000_000_000, 9_000_000_000)][r.below(3)],
        1 => r.range(4_000_000_000, 7_000_000_000),
        2 => 951_782_399 + r.range(0, 3),
        3 => 1_709_164_799 + r.range(0, 2),
        4 => 1_704_067_199 + r.range(0, 2),
        _ => r.range(1_200_000_000, 1_900_000_000),
    };
    let ns = match r.below(3) { 0 => 0, 1 => 999_999_999, _ => r.range(0, 999_999_999) };
    format!("clock {} 0", t * 1_000_000_000 + ns)
}

/// A synthetic time zone.
pub fn zone(r: &mut Rng) -> crate::model::time::Zone {
    let offs = [0i64, 3600, 7200, -18000, 19800, 45900, -12600, 36000, -39600, 20700];
    let first = *r.pick(&offs);
    let mut z = crate::model::time::Zone { first, changes: vec![] };
    let mut t = r.range(0, 900_000_000);
    let mut cur = first;
    for _ in 0..r.below(7) {
        let mut o = cur + [3600, -3600, 1800, 7200][r.below(4)];
        if o.abs() > 50_000 { o = first; }
        if o == cur { o = cur + 1800; }
        z.changes.push((t, o));
        cur = o;
        t += r.range(8_000_000, 180_000_000);
    }
    z
}

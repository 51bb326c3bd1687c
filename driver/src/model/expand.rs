//! Macro expansion and the command itself.
use super::data::{self, D, P};
use super::lang::*;
use super::markup;
use super::time::{self, Zone};
use super::world::*;
use super::*;
use crate::case::*;
use crate::util::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;

/// What a run of the command has to do.
#[derive(Clone, Debug)]
pub struct Outcome {
    pub out: Vec<u8>,
    pub code: i32,
    /// Where the diagnostic has to point, if it has a place.
    pub at: Option<Loc>,
    pub why: String,
    pub logs: Vec<(Loc, String)>,
    pub opened: Vec<String>,
    pub touched: BTreeSet<String>,
    /// Complete documents, in order.
    pub docs: Vec<String>,
    /// The world at the end (what mutations were reached).
    pub muts: usize,
}

#[derive(Debug)]
struct Macro { params: Vec<N>, body: Vec<N> }

type Defs = HashMap<String, Rc<Macro>>;

struct Interp<'w> {
    world: &'w mut World,
    includes: Vec<String>,
    steps: u32,
    depth: u32,
    logs: Vec<(Loc, String)>,
    unordered: usize,
}

#[derive(Clone, Copy)]
enum T { Lit, Of(&'static [&'static str]), Str, Sym, SymOf(&'static str), Num, List, Any }

#[derive(Clone, Copy)]
enum At { I(usize), K(&'static str) }

struct Args { pos: BTreeMap<usize, N>, named: BTreeMap<&'static str, N>, rest: Vec<N> }

impl T {
    fn check(&self, n: &N) -> R<()> {
        let a = n.atom().map(|a| a.v.as_str());
        let ok = match self {
            T::Any => true,
            T::Lit => a.is_some(),
            T::Of(v) => a.map_or(false, |a| v.contains(&a)),
            T::Str => matches!(n, N::Str(_) | N::Raw(_)),
            T::Sym => matches!(n, N::Sym(_)),
            T::SymOf(v) => n.sym().map_or(false, |a| a.v == *v),
            T::Num => matches!(n, N::Num(_)),
            T::List => matches!(n, N::List { .. }),
        };
        if ok { Ok(()) } else { n.site().fail("argument type") }
    }
}

fn args(call: &N, params: &[N], spec: &[(At, bool, T)], rest: Option<T>) -> R<Args> {
    let mut out = Args { pos: BTreeMap::new(), named: BTreeMap::new(), rest: vec![] };
    let mut position = 0;
    let mut mandatory = 0;
    for p in params {
        let (rule, value) = match p {
            N::Attr { kw, node, .. } =>
                (spec.iter().find(|s| matches!(s.0, At::K(k) if k == kw)), &**node),
            _ => {
                position += 1;
                (spec.iter().find(|s| matches!(s.0, At::I(i) if i == position)), p)
            },
        };
        match rule {
            Some((at, must, t)) => {
                t.check(value)?;
                match at {
                    At::I(i) => { out.pos.insert(*i, value.clone()); },
                    At::K(k) => { out.named.insert(k, value.clone()); },
                }
                if *must { mandatory += 1; }
            },
            None => match rest {
                Some(t) => {
                    if matches!(p, N::Attr { .. }) && !matches!(t, T::Any) { return p.site().fail("unknown attribute"); }
                    t.check(p)?;
                    out.rest.push(p.clone());
                },
                None => return p.site().fail("unexpected argument"),
            },
        }
    }
    if mandatory < spec.iter().filter(|s| s.1).count() {
        return params.last().map_or(call.site(), |p| p.site()).fail("missing argument");
    }
    Ok(out)
}

impl Args {
    fn a(&self, i: usize) -> &Atom { self.pos[&i].atom().unwrap() }
    fn key(&self, k: &str) -> Option<&str> { self.named.get(k).map(|n| n.atom().unwrap().v.as_str()) }
    fn sep(&self) -> String { self.key("separator").unwrap_or("/").into() }
}

fn atom_at(call: &N, v: String) -> Atom {
    Atom { v, site: call.site().clone(), ws: call.ws().into() }
}

impl<'w> Interp<'w> {
    fn nodes(&mut self, cx: &mut Defs, v: &[N]) -> R<Vec<N>> {
        let mut out = vec![];
        for n in v { out.extend(self.node(cx, n)?); }
        if out.len() > 4000 { return skip("size"); }
        Ok(out)
    }

    fn node(&mut self, cx: &mut Defs, n: &N) -> R<Vec<N>> {
        self.steps += 1;
        self.depth += 1;
        if self.steps > 30_000 { return skip("steps"); }
        if self.depth > 70 { return skip("depth"); }
        let r = self.node_(cx, n);
        self.depth -= 1;
        r
    }

    fn node_(&mut self, cx: &mut Defs, n: &N) -> R<Vec<N>> {
        match n {
            N::Sym(a) => {
                let Some(name) = a.v.strip_prefix('%') else { return Ok(vec![n.clone()]) };
                let Some(m) = cx.get(name).cloned() else { return a.site.fail("no such macro") };
                if !m.params.is_empty() { return a.site.fail("not a variable"); }
                let mut v = self.nodes(cx, &m.body)?;
                if let Some(f) = v.first_mut() { f.set_ws(&a.ws); }
                Ok(v)
            },
            N::List { nodes, site, end, end_ws, ws } => {
                if nodes.is_empty() { return Ok(vec![n.clone()]); }
                if let Some(name) = nodes[0].sym().and_then(|a| a.v.strip_prefix('%')) {
                    let mut params = nodes[1..].to_vec();
                    if let Some(f) = params.first_mut() {
                        if !f.ws().contains('\n') { f.set_ws(""); }
                    }
                    return self.invoke(cx, name, n, params);
                }
                let nodes = self.nodes(cx, nodes)?;
                Ok(vec![N::List { nodes, site: site.clone(), end: end.clone(), end_ws: end_ws.clone(), ws: ws.clone() }])
            },
            N::Attr { kw, node, site, ws } => {
                let mut v = self.node(cx, node)?;
                if v.is_empty() { return site.fail("keyword expands to nothing"); }
                let first = v[0].clone();
                v[0] = N::Attr { kw: kw.clone(), node: Box::new(first), site: site.clone(), ws: ws.clone() };
                Ok(v)
            },
            _ => Ok(vec![n.clone()]),
        }
    }

    /// Ok(Err(loc)): does not match.
    fn bind(&mut self, cx: &mut Defs, pat: &N, val: &N) -> R<()> {
        match pat {
            N::Attr { kw, node, .. } => match val {
                N::Attr { kw: k1, node: n1, .. } if kw == k1 => self.bind(cx, node, n1),
                _ => val.site().fail("keyword"),
            },
            N::List { nodes, .. } => match val {
                N::List { nodes: v, .. } => self.bind_list(cx, val, nodes, v),
                _ => val.site().fail("list"),
            },
            N::Sym(a) => { cx.insert(a.v.clone(), Rc::new(Macro { params: vec![], body: vec![val.clone()] })); Ok(()) },
            N::Num(a) => match val { N::Num(b) if a.v == b.v => Ok(()), _ => val.site().fail("number") },
            N::Str(a) | N::Raw(a) => match val {
                N::Str(b) | N::Raw(b) if a.v == b.v => Ok(()),
                _ => val.site().fail("string"),
            },
        }
    }

    fn bind_list(&mut self, cx: &mut Defs, at: &N, pats: &[N], vals: &[N]) -> R<()> {
        let (mut rest_pat, mut kw_pat): (Option<&Atom>, Option<&Atom>) = (None, None);
        let mut lhs: BTreeMap<&str, &N> = BTreeMap::new();
        let mut rhs: BTreeMap<&str, &N> = BTreeMap::new();
        let mut i = 0;
        for p in pats {
            if let N::Attr { kw, node, .. } = p { lhs.insert(kw, node); continue; }
            if let Some(a) = p.sym() {
                if a.v.starts_with("&&") {
                    if kw_pat.is_some() { return a.site.fail("two &&"); }
                    kw_pat = Some(a);
                    continue;
                }
                if a.v.starts_with('&') {
                    if rest_pat.is_some() { return a.site.fail("two &"); }
                    rest_pat = Some(a);
                    continue;
                }
            }
            loop {
                let Some(v) = vals.get(i) else { return at.site().fail("too few") };
                i += 1;
                if let N::Attr { kw, .. } = v { rhs.insert(kw, v); continue; }
                self.bind(cx, p, v)?;
                break;
            }
        }
        let mut rest = vec![];
        for v in vals.get(i..).unwrap_or(&[]) {
            if let N::Attr { kw, .. } = v { rhs.insert(kw, v); } else { rest.push(v.clone()); }
        }
        let put = |cx: &mut Defs, name: &str, body: Vec<N>| { cx.insert(name.into(), Rc::new(Macro { params: vec![], body })); };
        if let Some(a) = rest_pat { put(cx, &a.v[1..], rest); }
        else if let Some(l) = rest.last() { return l.site().fail("too many"); }
        for (k, default) in &lhs {
            let v = match rhs.remove(k) {
                Some(N::Attr { node, .. }) => (**node).clone(),
                _ => (*default).clone(),
            };
            put(cx, k, vec![v]);
        }
        if let Some(a) = kw_pat {
            let mut v = vec![];
            for n in vals {
                if let N::Attr { kw, .. } = n {
                    if let Some(x) = rhs.remove(kw.as_str()) { v.push(x.clone()); }
                }
            }
            put(cx, &a.v[2..], v);
        }
        if let Some((_, n)) = rhs.iter().next() { return n.site().fail("excess keyword"); }
        Ok(())
    }

    fn create(&mut self, cx: &mut Defs, name: &str, params: Vec<N>, body: Vec<N>) -> R<()> {
        for double in [false, true] {
            let mut found = params.iter().filter_map(|n| n.sym())
                .filter(|a| a.v.starts_with('&') && a.v.starts_with("&&") == double);
            if let (Some(_), Some(b)) = (found.next(), found.next()) { return b.site.fail("two variadics"); }
        }
        cx.insert(name.into(), Rc::new(Macro { params, body }));
        Ok(())
    }

    fn first_of(path: &[N], call: &N) -> R<(String, Site)> {
        let [p] = path else { return call.site().fail("wrong number of arguments") };
        let Some(a) = p.atom() else { return p.site().fail("not a path") };
        Ok((a.v.clone(), a.site.clone()))
    }

    fn join(dir: &str, path: &str) -> String {
        if path.starts_with('/') { return path.into(); }
        if dir.is_empty() { return path.into(); }
        if dir.ends_with('/') { format!("{}{}", dir, path) } else { format!("{}/{}", dir, path) }
    }

    fn include(&mut self, cx: &mut Defs, call: &N, params: Vec<N>) -> R<Vec<N>> {
        let params = self.nodes(cx, &params)?;
        let (path, site) = Self::first_of(&params, call)?;
        if path.is_empty() || path.ends_with(['/', '.']) || path.contains('\0') { return skip("odd include path"); }
        let mut found = None;
        for d in self.includes.clone() {
            let p = Self::join(&d, &path);
            for p in [p.clone(), format!("{}.sex", p)] {
                if let Ok(t) = self.world.read(&p) { found = Some((p, t)); break; }
            }
            if found.is_some() { break; }
        }
        let Some((p, text)) = found else { return site.fail("cannot include") };
        let tree = parse(&p, &text)?;
        let mut v = self.nodes(cx, &tree)?;
        if let Some(f) = v.first_mut() { f.set_ws(call.ws()); }
        Ok(v)
    }

    fn embed(&mut self, cx: &mut Defs, call: &N, params: Vec<N>) -> R<Vec<N>> {
        let params = self.nodes(cx, &params)?;
        let (path, site) = Self::first_of(&params, call)?;
        if path.is_empty() || path.contains('\0') { return skip("odd path"); }
        for d in self.includes.clone() {
            if let Ok(t) = self.world.read(&Self::join(&d, &path)) { return Ok(vec![N::Str(atom_at(call, t))]); }
        }
        site.fail("cannot embed")
    }

    /// The local time zone: TZ names a file of the zone database or gives a fixed
    /// offset; /etc/localtime without it; UTC if there is no usable zone at all.
    fn zone(&mut self) -> R<Zone> {
        let tz = self.world.var("TZ");
        let nothing = !self.world.tree.keys().any(|k| k.starts_with("/etc/"));
        let utc = |why: &'static str| if nothing { Ok(Zone::default()) } else { skip(why) };
        let path = match tz.as_deref() {
            None | Some("localtime") => "/etc/localtime".to_string(),
            Some("") => return utc("TZ"),
            Some(n) => {
                let name = n.strip_prefix(':').unwrap_or(n);
                if name.is_empty() || name.starts_with('/') || name.contains("..") { return skip("TZ"); }
                format!("/usr/share/zoneinfo/{}", name)
            },
        };
        let c = match self.world.resolve(&path) { Ok(c) => c, Err((2, _)) => {
            return match tz.as_deref() {
                Some(n) if n.starts_with(':') || !n.bytes().any(|b| b.is_ascii_digit() || b == b',') => utc("zone file"),
                Some(n) => time::posix(n).map_or(skip("TZ"), |first| Ok(Zone { first, changes: vec![] })),
                None => utc("zone file"),
            };
        }, Err(_) => return skip("zone file") };
        if self.world.any_fault("open", &c).is_some() || self.world.any_fault("read", &c).is_some() { return skip("zone file"); }
        match self.world.node(&c).map(|n| n.kind.clone()) {
            Some(NodeKind::File(d)) => Zone::parse(&d).map_or(skip("zone file"), Ok),
            _ => skip("zone file"),
        }
    }

    /// Offset in seconds given as hours.
    fn offset(n: Option<&N>) -> R<Option<(i64, Site)>> {
        let Some(n) = n else { return Ok(None) };
        let a = n.atom().unwrap();
        let body = a.v.strip_prefix(['+', '-']).unwrap_or(&a.v);
        let (int, frac) = body.split_once('.').unwrap_or((body, "0"));
        let num = |s: &str| !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit());
        if !num(int) || !num(frac) {
            // Either not a number, or far too many hours.
            if body.split_once(['e', 'E']).map_or(false, |(m, e)| num(m) && m.len() < 9 && m.parse::<i64>().unwrap() > 0 && num(e) && e.len() == 1 && e.parse::<i64>().unwrap() > 1) { return a.site.fail("offset"); }
            if body.chars().any(|c| c.is_ascii_alphabetic()) && !body.contains(['e', 'E', '_']) { return a.site.fail("offset"); }
            return skip("offset");
        }
        if int.trim_start_matches('0').len() > 9 { return a.site.fail("offset"); }
        if frac.len() > 4 || int.len() > 30 { return skip("offset"); }
        let scale = 10i128.pow(frac.len() as u32);
        let v: i128 = (int.parse::<i128>().unwrap() * scale + frac.parse::<i128>().unwrap()) * 3600 * 2;
        // Rounded; halves do not occur exactly in binary fractions unless exact.
        let secs = (v + scale) / (2 * scale);
        if v % (2 * scale) == scale && frac.trim_end_matches('0').len() > 1 { return skip("offset rounding"); }
        let secs = if a.v.starts_with('-') { -secs } else { secs };
        Ok(Some((secs as i64, a.site.clone())))
    }

    fn date(&mut self, cx: &mut Defs, call: &N, params: Vec<N>) -> R<Vec<N>> {
        let params = self.nodes(cx, &params)?;
        let a = args(call, &params, &[(At::I(1), true, T::Lit), (At::I(2), false, T::Num), (At::K("timezone"), false, T::Num)], None)?;
        let off = Self::offset(a.named.get("timezone"))?;
        let (secs, nanos) = match a.pos.get(&2) {
            Some(n) => {
                let t = n.atom().unwrap();
                let Ok(s) = t.v.parse::<i64>() else { return t.site.fail("timestamp") };
                if s.unsigned_abs() > 9_000_000_000_000 { return t.site.fail("timestamp"); }
                if s.unsigned_abs() > 200_000_000_000 { return skip("far away"); }
                (s, 0)
            },
            None => {
                let c = self.world.clock;
                self.world.mutate("clock", "");
                (c.div_euclid(1_000_000_000), c.rem_euclid(1_000_000_000))
            },
        };
        let off = match off {
            Some((o, site)) => { if o.abs() >= 86400 { return site.fail("offset"); } o },
            None => self.zone()?.at(secs),
        };
        match time::format(&a.a(1).v, secs, nanos, off)? {
            Some(s) => Ok(vec![N::Str(atom_at(call, s))]),
            None => a.a(1).site.fail("format"),
        }
    }

    fn timestamp(&mut self, cx: &mut Defs, call: &N, params: Vec<N>) -> R<Vec<N>> {
        let params = self.nodes(cx, &params)?;
        let a = args(call, &params, &[(At::I(1), true, T::Lit), (At::I(2), true, T::Lit), (At::K("timezone"), false, T::Num)], None)?;
        let off = Self::offset(a.named.get("timezone"))?;
        if let Some((o, site)) = &off { if o.abs() >= 86400 { return site.fail("offset"); } }
        let Some((local, given)) = time::parse(&a.a(1).v, &a.a(2).v)? else { return call.site().fail("date") };
        let t = match (given, off) {
            (Some(o), _) => local - o,
            (None, Some((o, _))) => local - o,
            (None, None) => match self.zone()?.earliest(local) {
                Err(()) => return skip("edge of a change"),
                Ok(None) => return call.site().fail("gap"),
                Ok(Some(t)) => t,
            },
        };
        Ok(vec![N::Num(atom_at(call, t.to_string()))])
    }

    fn glob(&mut self, cx: &mut Defs, call: &N, params: Vec<N>) -> R<Vec<N>> {
        let params = self.nodes(cx, &params)?;
        let a = args(call, &params, &[(At::I(1), true, T::Lit),
            (At::K("type"), false, T::Of(&["file", "directory", "any"])),
            (At::K("sort"), false, T::Of(&["modified", "created", "name", "type", "none"])),
            (At::K("order"), false, T::Of(&["ascending", "descending"]))], None)?;
        let site = a.a(1).site.clone();
        let Some(r) = self.world.glob(&a.a(1).v) else { return skip("glob pattern") };
        let Ok(paths) = r else { return site.fail("glob") };
        let mut found: Vec<(String, VNode)> = vec![];
        for p in paths {
            let c = match self.world.resolve(&p) { Ok(c) => c, Err((ENOENT, _)) => continue, Err(_) => return site.fail("glob entry") };
            match self.world.any_fault("stat", &c) { Some(ENOENT) => continue, Some(_) => return site.fail("glob entry"), None => {} }
            let n = self.world.node(&c).cloned().unwrap();
            let dir = n.kind == NodeKind::Dir;
            match a.key("type").unwrap_or("any") { "file" if dir || n.kind == NodeKind::Sock => continue, "directory" if !dir => continue, _ => {} }
            found.push((p, n));
        }
        let comps = |p: &str| -> Vec<String> {
            let mut v: Vec<String> = p.split('/').filter(|c| !c.is_empty()).map(|c| c.to_string()).collect();
            if p.starts_with('/') { v.insert(0, "/".into()); }
            v
        };
        // Absolute and relative paths never meet in one listing.
        let ext = |p: &str| -> Option<String> {
            let f = p.rsplit('/').next().unwrap_or("");
            match f.rfind('.') { Some(0) | None => None, Some(i) => Some(f[i + 1..].to_string()) }
        };
        let dir = |n: &VNode| n.kind == NodeKind::Dir;
        match a.key("sort").unwrap_or("none") {
            "name" => found.sort_by_key(|x| comps(&x.0)),
            "modified" => found.sort_by_key(|x| (-x.1.mtime, comps(&x.0))),
            "created" => {
                if self.world.dirs.iter().any(|d| *d == Dir::Plain("nobtime".into())) { return skip("no creation times"); }
                found.sort_by_key(|x| (-x.1.btime, comps(&x.0)))
            },
            // Between a socket and the rest no type comes first: only where it is well-defined.
            "type" if found.iter().any(|x| x.1.kind == NodeKind::Sock) => {
                if found.iter().any(|x| dir(&x.1)) && found.iter().any(|x| matches!(x.1.kind, NodeKind::File(_))) { return skip("types"); }
                found.sort_by_key(|x| (ext(&x.0).is_some(), ext(&x.0), comps(&x.0)))
            },
            "type" => found.sort_by_key(|x| (!dir(&x.1), ext(&x.0).is_some(), ext(&x.0), comps(&x.0))),
            _ => {
                found.sort_by_key(|x| comps(&x.0));
                if found.len() > 1 { self.unordered += 1; }
            },
        }
        if a.key("order") == Some("descending") { found.reverse(); }
        Ok(found.into_iter().enumerate().map(|(i, (v, _))| N::Str(Atom { v, site: site.clone(), ws: if i == 0 { "".into() } else { " ".into() } })).collect())
    }

    fn data(&mut self, cx: &mut Defs, call: &N, kind: &str, text: &str, sep: &str) -> R<Vec<N>> {
        let p = match kind { "toml" => data::toml(text), "json" => data::json(text), _ => data::yaml(text) };
        let p = match p {
            P::Unknown if kind == "toml" => super::formats::toml(text),
            P::Unknown => match super::formats::yaml(text) { Some(p) => p, None => return Ok(vec![]) },
            p => p,
        };
        match p {
            P::Unknown => skip("data"),
            P::Bad => call.site().fail("data"),
            P::Ok(d) => Ok(vec![Self::define_data(cx, call, &d, None, sep, "")]),
        }
    }

    fn define_data(cx: &mut Defs, call: &N, d: &D, prefix: Option<&str>, sep: &str, ws: &str) -> N {
        let site = call.site().clone();
        let atom = |v: &str| Atom { v: v.into(), site: site.clone(), ws: ws.into() };
        let sub = |k: &str| match prefix { None => k.to_string(), Some(p) => format!("{}{}{}", p, sep, k) };
        match d {
            D::Str(s) => N::Str(atom(s)),
            D::Num(s) => N::Num(atom(s)),
            D::Word(s) => N::Sym(atom(s)),
            D::Map(m) => {
                let mut nodes = vec![];
                for (k, v) in m {
                    let name = sub(k);
                    let n = Self::define_data(cx, call, v, Some(&name), sep, " ");
                    // A container is defined with the blank it has in the list.
                    let mut body = n.clone();
                    let first = nodes.is_empty();
                    if matches!(v, D::Map(_) | D::Seq(_)) && first { body.set_ws(""); }
                    cx.insert(name, Rc::new(Macro { params: vec![], body: vec![body] }));
                    nodes.push(N::Attr { kw: k.clone(), node: Box::new(n), site: site.clone(), ws: if first { "".into() } else { " ".into() } });
                }
                N::List { nodes, site: site.clone(), end: site.clone(), end_ws: "".into(), ws: ws.into() }
            },
            D::Seq(v) => {
                let mut nodes = vec![];
                for (i, x) in v.iter().enumerate() {
                    let name = sub(&i.to_string());
                    let n = Self::define_data(cx, call, x, Some(&name), sep, if i == 0 { "" } else { " " });
                    cx.insert(name, Rc::new(Macro { params: vec![], body: vec![n.clone()] }));
                    nodes.push(n);
                }
                N::List { nodes, site: site.clone(), end: site.clone(), end_ws: "".into(), ws: ws.into() }
            },
        }
    }

    fn markdown(&mut self, cx: &mut Defs, call: &N, params: Vec<N>) -> R<Vec<N>> {
        let params = self.nodes(cx, &params)?;
        let a = args(call, &params, &[(At::I(1), true, T::Str),
            (At::K("only"), false, T::Of(&["frontmatter", "content"])),
            (At::K("separator"), false, T::Lit)], None)?;
        let text = a.a(1).v.strip_prefix('\u{feff}').unwrap_or(&a.a(1).v).to_string();
        let mut rest: &str = &text;
        let mut front = None;
        if text.contains('\r') && text.starts_with(['-', '+']) { return skip("fence"); }
        for (fence, kind) in [("---\n", "yaml"), ("+++\n", "toml")] {
            let Some(r) = text.strip_prefix(fence) else { continue };
            let bare = fence.trim_end();
            let mut off = 0;
            for line in r.split_inclusive('\n') {
                if line.trim_end_matches('\n') == bare {
                    front = Some((r[..off].strip_suffix('\n').unwrap_or(&r[..off]).to_string(), kind));
                    rest = &r[off + line.len()..];
                    break;
                }
                if line.starts_with(bare) { return skip("fence"); }
                off += line.len();
            }
        }
        let only = a.key("only");
        if front.is_none() && text.starts_with(['-', '+', ' ', '\t', '\u{feff}']) && only != Some("frontmatter") { return skip("markdown"); }
        if front.is_none() && text.contains('\r') { return skip("markdown"); }
        if only != Some("content") {
            match &front {
                Some((t, kind)) => { self.data(cx, call, kind, t, &a.sep())?; },
                None if only == Some("frontmatter") => return a.a(1).site.fail("no front matter"),
                None => {},
            }
        }
        if only == Some("frontmatter") { return Ok(vec![]); }
        // Plain paragraphs only.
        let mut html = String::new();
        for p in rest.split("\n\n") {
            let p = p.trim_matches('\n');
            if p.is_empty() { continue; }
            for l in p.lines() {
                if !l.starts_with(|c: char| c.is_ascii_alphabetic()) || !l.chars().all(|c| c.is_ascii_alphabetic() || c == ' ' || c == ',') || l.contains("  ") || l.ends_with(' ') { return skip("markdown"); }
            }
            if !html.is_empty() && !html.ends_with('\n') { html.push('\n'); }
            html += &format!("<p>{}</p>", p);
        }
        // The converter's line ends are its own.
        if front.is_some() || html.contains('\n') { html = OPEN.into(); }
        else if rest.ends_with('\n') && !html.is_empty() { html.push('\n'); }
        Ok(vec![N::Raw(atom_at(call, html))])
    }

    fn sort(&mut self, cx: &mut Defs, call: &N, params: Vec<N>) -> R<Vec<N>> {
        let before = self.unordered;
        let params = self.nodes(cx, &params)?;
        let a = args(call, &params, &[(At::I(1), true, T::Any), (At::K("order"), false, T::Of(&["ascending", "descending"])), (At::K("key"), false, T::Sym)], None)?;
        // Listed paths differ, so sorting them by themselves settles the order.
        if a.named.get("key").is_none() { self.unordered = before; }
        let ksite = a.named.get("key").map_or(call.site(), |k| k.site()).clone();
        let key = a.key("key").unwrap_or("do").to_string();
        let asc = a.key("order") != Some("descending");
        let N::List { nodes, site, end, end_ws, .. } = &a.pos[&1] else { return a.pos[&1].site().fail("not a list") };
        let mut items: Vec<(N, String)> = vec![];
        for n in nodes {
            let k = self.invoke(cx, &key, call, vec![n.clone()])?;
            let [k] = &k[..] else { return ksite.fail("key values") };
            let Some(k) = k.atom() else { return k.site().fail("key type") };
            if k.v.contains("__lambda") { return skip("lambda name"); }
            items.push((n.clone(), k.v.clone()));
        }
        let num = |k: &str| k.parse::<f64>().ok().filter(|n| !n.is_nan());
        items.sort_by(|x, y| {
            let (x, y) = if asc { (x, y) } else { (y, x) };
            match (num(&x.1), num(&y.1)) {
                (Some(a), Some(b)) => a.partial_cmp(&b).unwrap().then_with(|| x.1.parse::<i64>().ok().cmp(&y.1.parse::<i64>().ok())),
                (Some(_), None) => std::cmp::Ordering::Less,
                (None, Some(_)) => std::cmp::Ordering::Greater,
                (None, None) => x.1.cmp(&y.1),
            }
        });
        let out = items.into_iter().zip(nodes).map(|((mut n, _), o)| { n.set_ws(o.ws()); n }).collect();
        Ok(vec![N::List { nodes: out, site: site.clone(), end: end.clone(), end_ws: end_ws.clone(), ws: call.ws().into() }])
    }

    fn format(&mut self, cx: &mut Defs, call: &N, params: Vec<N>) -> R<Vec<N>> {
        let params = self.nodes(cx, &params)?;
        let Some(f) = params.first() else { return call.site().fail("format") };
        let N::Str(f) = f else { return f.site().fail("format string") };
        // Braces that do not pair up, doubled ones aside.
        let bare = f.v.replace("{{", "  ").replace("}}", "  ");
        let mut open = false;
        for ch in bare.chars() {
            match ch { '{' if !open => open = true, '}' if open => open = false, '{' | '}' => return f.site.fail("format string"), _ => {} }
        }
        if open { return f.site.fail("format string"); }
        let (mut pos, mut named) = (vec![], vec![]);
        for p in &params[1..] {
            let (name, v) = match p { N::Attr { kw, node, .. } => (Some(kw.clone()), &**node), _ => (None, p) };
            let Some(a) = v.atom() else { return v.site().fail("compound") };
            if a.v.contains(['{', '}']) { return skip("format value"); }
            match name { Some(k) => named.push((k, a.v.clone())), None => pos.push(a.v.clone()) }
        }
        let mut out = String::new();
        let mut rest = f.v.as_str();
        let mut missing = false;
        while let Some(i) = rest.find('{') {
            out += &rest[..i];
            let Some(j) = rest[i..].find('}') else { return skip("format string") };
            let name = &rest[i + 1..i + j];
            if !name.chars().all(|c| c.is_ascii_lowercase()) || rest[..i].contains('}') { return skip("format string"); }
            if name.is_empty() {
                if pos.is_empty() { missing = true; } else { out += &pos.remove(0); }
            } else {
                match named.iter().find(|x| x.0 == name) { Some(x) => out += &x.1, None => missing = true }
            }
            rest = &rest[i + j + 1..];
        }
        if rest.contains('}') || !pos.is_empty() { return skip("format string"); }
        out += rest;
        if missing { return f.site.fail("format values"); }
        Ok(vec![N::Str(atom_at(call, out))])
    }

    fn invoke(&mut self, cx: &mut Defs, name: &str, call: &N, params: Vec<N>) -> R<Vec<N>> {
        self.depth += 1;
        let r = self.invoke_(cx, name, call, params);
        self.depth -= 1;
        r
    }

    fn invoke_(&mut self, cx: &mut Defs, name: &str, call: &N, params: Vec<N>) -> R<Vec<N>> {
        let lits = [(At::I(1), true, T::Lit)];
        match name {
            "define" => {
                let Some((head, body)) = params.split_first() else { return call.site().fail("define") };
                match head {
                    N::Sym(a) => {
                        let body = self.nodes(cx, body)?;
                        self.create(cx, &a.v, vec![], body)?;
                    },
                    N::List { nodes, .. } => {
                        let Some((n, p)) = nodes.split_first() else { return head.site().fail("no name") };
                        let N::Sym(a) = n else { return n.site().fail("name") };
                        self.create(cx, &a.v, p.to_vec(), body.to_vec())?;
                    },
                    _ => return head.site().fail("define head"),
                }
                Ok(vec![])
            },
            "match" => {
                let Some((e, pats)) = params.split_first() else { return call.site().fail("match") };
                let v = self.node(cx, e)?;
                let [v] = &v[..] else { return e.site().fail("match value") };
                for p in pats {
                    let N::List { nodes, .. } = p else { return p.site().fail("pattern") };
                    let Some((pat, body)) = nodes.split_first() else { return p.site().fail("pattern") };
                    let w = self.node(cx, pat)?;
                    let [w] = &w[..] else { return pat.site().fail("pattern value") };
                    let mut sub = cx.clone();
                    match self.bind(&mut sub, w, v) {
                        Ok(()) => return self.nodes(&mut sub, body),
                        Err(Stop::Fail(..)) => {},
                        // The place of a mismatch does not matter here.
                        Err(Stop::Skip(s)) if s == "width" => {},
                        Err(e) => return Err(e),
                    }
                }
                Ok(vec![])
            },
            "ifdef" => {
                if params.len() < 2 || params.len() > 3 { return call.site().fail("ifdef"); }
                let Some(a) = params[0].atom() else { return params[0].site().fail("ifdef name") };
                let mut v = if cx.contains_key(&a.v) { self.node(cx, &params[1])? }
                    else if let Some(p) = params.get(2) { self.node(cx, p)? }
                    else { vec![] };
                if let Some(f) = v.first_mut() { f.set_ws(call.ws()); }
                Ok(v)
            },
            "do" => self.nodes(cx, &params),
            "get" => {
                let params = self.nodes(cx, &params)?;
                let a = args(call, &params, &[(At::I(1), true, T::Lit), (At::I(2), true, T::Any), (At::K("separator"), false, T::Lit)], None)?;
                let mut n = a.pos[&2].clone();
                let sep = a.sep();
                if sep.is_empty() { return skip("empty separator"); }
                for item in a.a(1).v.split(sep.as_str()) {
                    let N::List { nodes, .. } = &n else { return n.site().fail("get on an atom") };
                    let by_name = || nodes.iter().find_map(|x| match x { N::Attr { kw, node, .. } if kw == item => Some((**node).clone()), _ => None });
                    if item.starts_with('+') { return skip("index"); }
                    let got = item.parse::<usize>().ok().and_then(|i| nodes.get(i).cloned()).or_else(by_name);
                    let Some(got) = got else { return n.site().fail("get") };
                    n = got;
                }
                Ok(vec![n])
            },
            "raw" | "string" => {
                let mut b = String::new();
                for p in self.nodes(cx, &params)? {
                    let Some(a) = p.atom() else { return p.site().fail("not a literal") };
                    b += &a.ws;
                    b += &a.v;
                }
                let a = atom_at(call, b);
                Ok(vec![if name == "raw" { N::Raw(a) } else { N::Str(a) }])
            },
            "number" | "symbol" => {
                let params = self.nodes(cx, &params)?;
                let a = args(call, &params, &[], Some(T::Lit))?;
                Ok(a.rest.iter().map(|n| n.atom().unwrap().clone()).map(|a| if name == "number" { N::Num(a) } else { N::Sym(a) }).collect())
            },
            "include" => self.include(cx, call, params),
            "embed" => self.embed(cx, call, params),
            "namespace" => {
                let mut sub = cx.clone();
                let params = self.nodes(&mut sub, &params)?;
                let Some(ns) = params.first().and_then(|n| n.atom()) else { return call.site().fail("namespace") };
                let mut sep = "/".to_string();
                let mut i = 1;
                while let Some(N::Attr { kw, node, site, .. }) = params.get(i) {
                    i += 1;
                    if kw != "separator" { return site.fail("option"); }
                    match node.atom() { Some(a) => sep = a.v.clone(), None => return node.site().fail("separator") }
                }
                for (k, v) in &sub { cx.insert(format!("{}{}{}", ns.v, sep, k), v.clone()); }
                Ok(params[i..].to_vec())
            },
            "markdown" => self.markdown(cx, call, params),
            "yaml" | "json" | "toml" => {
                let params = self.nodes(cx, &params)?;
                let a = args(call, &params, &[(At::I(1), true, T::Str), (At::K("separator"), false, T::Lit)], None)?;
                let (text, sep) = (a.a(1).v.clone(), a.sep());
                self.data(cx, call, name, &text, &sep)
            },
            "glob" => self.glob(cx, call, params),
            "for" => {
                let a = args(call, &params, &[(At::I(1), true, T::Any), (At::I(2), true, T::SymOf("in")), (At::I(3), true, T::List)], Some(T::Any))?;
                let N::List { nodes, .. } = &a.pos[&3] else { unreachable!() };
                let list = self.nodes(cx, nodes)?;
                let mut sub = cx.clone();
                let mut out = vec![];
                for item in list {
                    self.bind(&mut sub, &a.pos[&1], &item)?;
                    out.extend(self.nodes(&mut sub, &a.rest)?);
                }
                Ok(out)
            },
            "sort" => self.sort(cx, call, params),
            "reverse" => {
                let params = self.nodes(cx, &params)?;
                let a = args(call, &params, &[(At::I(1), true, T::List)], None)?;
                let mut l = a.pos[&1].clone();
                if let N::List { nodes, .. } = &mut l {
                    let ws: Vec<String> = nodes.iter().map(|n| n.ws().to_string()).collect();
                    nodes.reverse();
                    for (n, w) in nodes.iter_mut().zip(ws) { n.set_ws(&w); }
                }
                Ok(vec![l])
            },
            "date" => self.date(cx, call, params),
            "timestamp" => self.timestamp(cx, call, params),
            "join" => {
                let params = self.nodes(cx, &params)?;
                let a = args(call, &params, &[lits[0], (At::K("trailing"), false, T::Of(&["true", "false"]))], Some(T::Lit))?;
                let sep = &a.a(1).v;
                let items: Vec<&str> = a.rest.iter().map(|n| n.atom().unwrap().v.as_str()).collect();
                let mut s = items.join(sep);
                if a.key("trailing") == Some("true") { s += sep; }
                Ok(vec![N::Str(atom_at(call, s))])
            },
            "concat" => {
                let params = self.nodes(cx, &params)?;
                let a = args(call, &params, &[], Some(T::Lit))?;
                let s: String = a.rest.iter().map(|n| n.atom().unwrap().v.as_str()).collect();
                Ok(vec![N::Str(atom_at(call, s))])
            },
            "map" | "filter" => {
                let params = self.nodes(cx, &params)?;
                let a = args(call, &params, &[(At::I(1), true, T::Sym)], Some(T::Any))?;
                let f = a.a(1).v.clone();
                let mut out = vec![];
                for x in &a.rest {
                    let v = self.invoke(cx, &f, call, vec![x.clone()])?;
                    if name == "filter" {
                        if let [N::List { nodes, .. }] = &v[..] { if nodes.is_empty() { continue; } }
                    }
                    out.extend(v);
                }
                Ok(out)
            },
            "splat" => {
                let mut out = vec![];
                for p in self.nodes(cx, &params)? {
                    if let N::List { mut nodes, ws, .. } = p {
                        if let Some(f) = nodes.first_mut() { f.set_ws(&ws); }
                        out.extend(nodes);
                    } else { out.push(p); }
                }
                Ok(out)
            },
            "list" => {
                let v = self.nodes(cx, &params)?;
                let N::List { site, end, end_ws, ws, .. } = call else { unreachable!() };
                Ok(vec![N::List { nodes: v, site: site.clone(), end: end.clone(), end_ws: end_ws.clone(), ws: ws.clone() }])
            },
            "strip" => {
                let mut v = self.nodes(cx, &params)?;
                if let Some(f) = v.first_mut() { f.set_ws(""); }
                Ok(v)
            },
            "apply" => {
                let params = self.nodes(cx, &params)?;
                let a = args(call, &params, &[(At::I(1), true, T::Sym)], Some(T::Any))?;
                let f = a.a(1).v.clone();
                self.invoke(cx, &f, call, a.rest)
            },
            "lambda" => {
                let a = args(call, &params, &[(At::I(1), true, T::Any)], Some(T::Any))?;
                let params = match &a.pos[&1] {
                    N::List { nodes, .. } => nodes.clone(),
                    n @ N::Sym(_) => vec![n.clone()],
                    n => return n.site().fail("lambda arguments"),
                };
                let name = format!("__lambda{}:{}", norm_path(&call.site().src.path), call.site().off);
                self.create(cx, &name, params, a.rest)?;
                Ok(vec![N::Sym(atom_at(call, name))])
            },
            "log" => {
                let mut words = vec![];
                for p in self.nodes(cx, &params)? {
                    let Some(a) = p.atom() else { return call.site().fail("log") };
                    words.push(a.v.clone());
                }
                let msg = words.join(" ");
                if msg.contains("__lambda") { return skip("lambda name"); }
                if self.unordered > 0 { return skip("listing order"); }
                self.logs.push((call.site().loc()?, msg));
                Ok(vec![])
            },
            "os/env" => {
                let params = self.nodes(cx, &params)?;
                let [p] = &params[..] else { return call.site().fail("os/env") };
                let Some(a) = p.atom() else { return p.site().fail("os/env") };
                if a.v.is_empty() || a.v.contains(['=', '\0']) { return a.site.fail("no such variable"); }
                match self.world.var(&a.v) {
                    Some(v) => Ok(vec![N::Str(Atom { v, site: a.site.clone(), ws: a.ws.clone() })]),
                    None => a.site.fail("no such variable"),
                }
            },
            "format" => self.format(cx, call, params),
            _ => {
                let params = self.nodes(cx, &params)?;
                let Some(m) = cx.get(name).cloned() else { return call.site().fail("macro not found") };
                let mut sub = cx.clone();
                self.bind_list(&mut sub, call, &m.params, &params)?;
                self.nodes(&mut sub, &m.body)
            },
        }
    }
}

/// One document. Err with logs printed so far kept in `logs`.
fn build(world: &mut World, includes: &[String], target: &str, doc: bool, path: &str, text: &str, logs: &mut Vec<(Loc, String)>) -> R<String> {
    let tree = parse(path, text)?;
    let mut it = Interp { world, includes: includes.to_vec(), steps: 0, depth: 0, logs: vec![], unordered: 0 };
    let r = it.nodes(&mut Defs::new(), &tree);
    let unordered = it.unordered;
    logs.append(&mut it.logs);
    let tree = r?;
    if unordered > 0 { return skip("listing order"); }
    let s = markup::generate(target, &tree, doc)?;
    if s.contains("__lambda") { return skip("lambda name"); }
    Ok(s)
}

/// Stands for text that is not described.
const OPEN: &str = "\u{f8ff}?";

/// What `seam ARGS` does in the world of this run; Err: not described.
pub fn build_all(case: &Case, run: &Run) -> Result<Outcome, String> {
    let mut w = World::new(case, run);
    let mut o = Outcome { out: vec![], code: 1, at: None, why: String::new(), logs: vec![], opened: vec![], touched: BTreeSet::new(), docs: vec![], muts: 0 };
    let r = command(&mut w, run, &mut o);
    o.opened = w.opened.clone();
    o.touched = w.touched.clone();
    o.muts = w.mut_hits.iter().filter(|h| h.1).count();
    match r {
        _ if w.unclear => Err("fault reached or not".into()),
        _ if lossy(&o.out).contains(OPEN) || o.logs.iter().any(|l| l.1.contains(OPEN)) => Err("markdown".into()),
        _ if o.touched.iter().any(|p| p.contains("__lambda")) => Err("lambda name".into()),
        Ok(()) => { o.code = 0; Ok(o) },
        Err(Stop::Skip(s)) => Err(s),
        Err(Stop::Fail(at, why)) => {
            o.code = 1;
            o.why = why;
            o.at = if at.1 == 0 { None } else { Some(at) };
            Ok(o)
        },
    }
}

fn usage<T>(why: &str) -> R<T> { Err(Stop::Fail((String::new(), 0, 0), why.into())) }

fn command(w: &mut World, run: &Run, o: &mut Outcome) -> R<()> {
    let (mut files, mut target, mut dirs, mut stdin, mut doc) = (vec![], String::new(), vec![".".to_string()], false, true);
    for a in &run.args {
        let Ok(a) = std::str::from_utf8(a) else { return skip("argument") };
        if let Some(opt) = a.strip_prefix("--") {
            match opt {
                "text" | "sexp" | "html" | "xml" | "css" => target = opt.into(),
                "nodocument" | "nodoc" => doc = false,
                _ => return usage("option"),
            }
        } else if let Some(opt) = a.strip_prefix('-') {
            if opt == "v" || opt.starts_with("v-") { return skip("version"); }
            if let Some(d) = opt.strip_prefix('I') {
                if !dirs.iter().any(|x| norm_path(x) == norm_path(d)) { dirs.push(d.into()); }
            } else if opt.is_empty() { stdin = true }
            else { return usage("option") }
        } else {
            w.touch_path(a);
            if !w.exists(a) { return usage("file not found"); }
            files.push(a.to_string());
        }
    }
    if files.is_empty() { stdin = true; }
    if target.is_empty() { return usage("no target"); }
    let mut inputs: Vec<Option<String>> = vec![];
    if stdin { inputs.push(None); }
    inputs.extend(files.into_iter().map(Some));
    for i in inputs {
        let (path, text) = match i {
            None => {
                if w.any_fault("read", "<stdin>").is_some() { return usage("stdin"); }
                match String::from_utf8(w.stdin.clone()) { Ok(t) => ("<stdin>".to_string(), t), Err(_) => return usage("stdin") }
            },
            Some(p) => match w.read(&p) { Ok(t) => (p, t), Err(_) => return usage("source") },
        };
        let s = build(w, &dirs, &target, doc, &path, &text, &mut o.logs)?;
        o.out.extend(s.as_bytes());
        o.out.push(b'\n');
        o.docs.push(s);
    }
    Ok(())
}

//! Generating text, S-expressions, HTML, XML and CSS.
use super::lang::*;
use super::*;
use std::rc::Rc;

pub fn generate(target: &str, tree: &[N], doc: bool) -> R<String> {
    let mut o = String::new();
    match target {
        "text" => text(&mut o, tree),
        "sexp" => sexp(&mut o, tree),
        "xml" => {
            if doc && tree.is_empty() { return Ok(XML.into()); }
            let declared = matches!(tree.first(), Some(N::List { nodes, .. })
                if matches!(nodes.first(), Some(N::Sym(a)) if a.v.to_lowercase() == "?xml"));
            if doc && !declared { o += XML; }
            xml(&mut o, tree)?;
        },
        "css" => {
            if doc && tree.is_empty() { return Ok("\n".into()); }
            css(&mut o, tree)?;
        },
        _ => return html_document(tree, doc),
    }
    Ok(o)
}

const XML: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>\n";

fn escape(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o += "&lt;",
            '>' => o += "&gt;",
            '"' => o += "&quot;",
            '\'' => o += "&apos;",
            '&' => o += "&amp;",
            c => o.push(c),
        }
    }
    o
}

fn text(o: &mut String, v: &[N]) {
    for n in v {
        *o += n.ws();
        match n {
            N::List { nodes, end_ws, .. } => { o.push('('); text(o, nodes); *o += end_ws; o.push(')'); },
            N::Attr { kw, node, .. } => { *o += &format!(":{}", kw); text(o, std::slice::from_ref(node)); },
            n => *o += &n.atom().unwrap().v,
        }
    }
}

fn sexp(o: &mut String, v: &[N]) {
    for n in v {
        *o += n.ws();
        match n {
            N::List { nodes, end_ws, .. } => { o.push('('); sexp(o, nodes); *o += end_ws; o.push(')'); },
            N::Attr { kw, node, .. } => { *o += &format!(":{}", kw); sexp(o, std::slice::from_ref(node)); },
            N::Str(a) => *o += &format!("{:?}", a.v),
            N::Raw(a) => *o += &format!("(%raw {:?})", a.v),
            N::Sym(a) | N::Num(a) => *o += &a.v,
        }
    }
}

/// Children lose the blank before the first, unless it is on the next line.
fn children(rest: &[N]) -> (Vec<N>, bool) {
    let mut v = rest.to_vec();
    let mut next_line = false;
    if let Some(f) = v.first_mut() {
        next_line = f.ws().contains('\n');
        if !next_line { f.set_ws(""); }
    }
    (v, next_line)
}

fn xml_attr(a: &N) -> R<String> {
    let N::Attr { kw, node, .. } = a else { unreachable!() };
    match node.atom() {
        Some(x) => Ok(format!("{}=\"{}\"", kw, x.v)),
        None => node.site().fail("attribute value"),
    }
}

fn tag<'a>(n: &'a N, nodes: &'a [N]) -> R<&'a str> {
    match nodes.first() {
        None => n.site().fail("empty list"),
        Some(N::Sym(a)) if !a.v.is_empty() => Ok(&a.v),
        Some(h) => h.site().fail("tag name"),
    }
}

fn xml(o: &mut String, v: &[N]) -> R<()> {
    for n in v {
        match n {
            N::Sym(a) | N::Num(a) | N::Str(a) => { *o += &a.ws; *o += &escape(&a.v); },
            N::List { nodes, end_ws, ws, .. } => {
                *o += ws;
                let t = tag(n, nodes)?;
                *o += &format!("<{}", t);
                let mut rest = &nodes[1..];
                if t.starts_with(['!', '?']) {
                    for r in rest {
                        if let Some(a) = r.symbolic() { *o += &a.v; }
                        else if let N::Attr { .. } = r { *o += &format!(" {}", xml_attr(r)?); }
                        else { return r.site().fail("declaration"); }
                    }
                    *o += if t.starts_with('?') { " ?>" } else { ">" };
                    continue;
                }
                while let Some(a @ N::Attr { .. }) = rest.first() {
                    *o += &format!(" {}", xml_attr(a)?);
                    rest = &rest[1..];
                }
                o.push('>');
                let (kids, next_line) = children(rest);
                xml(o, &kids)?;
                if !end_ws.is_empty() { *o += end_ws; }
                else if next_line || t == "style" { *o += ws; }
                *o += &format!("</{}>", t);
            },
            n => return n.site().fail("unexpected node"),
        }
    }
    Ok(())
}

const VOID: [&str; 14] = ["area", "base", "br", "col", "embed", "hr", "img", "input", "link", "meta", "param", "source", "track", "wbr"];

fn html(o: &mut String, v: &[N]) -> R<()> {
    for n in v {
        match n {
            N::Sym(a) | N::Num(a) | N::Str(a) => { *o += &a.ws; *o += &escape(&a.v); },
            N::Raw(a) => { *o += &a.ws; *o += &a.v; },
            N::List { nodes, end, end_ws, ws, .. } => {
                *o += ws;
                let t = tag(n, nodes)?;
                *o += &format!("<{}", t);
                let t = t.to_ascii_lowercase();
                let mut rest = &nodes[1..];
                if t.starts_with('!') {
                    for r in rest {
                        let Some(a) = r.symbolic() else { return r.site().fail("declaration") };
                        *o += &format!(" {}", a.v);
                    }
                    o.push('>');
                    continue;
                }
                while let Some(N::Attr { kw, node, ws, .. }) = rest.first() {
                    let Some(a) = node.atom() else { return node.site().fail("attribute value") };
                    *o += if ws.is_empty() { " " } else { ws };
                    *o += &format!("{}=\"{}\"", kw, a.v);
                    rest = &rest[1..];
                }
                o.push('>');
                if VOID.contains(&t.as_str()) {
                    if let Some(c) = rest.first() { return c.site().fail("child of a void element"); }
                    continue;
                }
                let (kids, next_line) = children(rest);
                match t.as_str() {
                    "pre" => match rest.first() {
                        None => *o += end_ws,
                        Some(f) => {
                            if !Rc::ptr_eq(&f.site().src, &end.src) { return f.site().fail("pre across sources"); }
                            let from = f.site().off + f.ws().starts_with(' ') as usize;
                            let got = from.checked_sub(f.ws().len()).and_then(|i| end.src.text.get(i..end.off));
                            match got { Some(s) => *o += s, None => return f.site().fail("pre") }
                        },
                    },
                    "textarea" | "title" => text(o, &kids),
                    "style" => {
                        if let Some(N::Str(a)) = kids.first() {
                            if kids.len() != 1 { return a.site.fail("style"); }
                            *o += &a.v;
                        } else {
                            o.push('\n');
                            css(o, &kids)?;
                        }
                    },
                    "script" => sexp(o, &kids),
                    "math" | "svg" => xml(o, &kids)?,
                    _ => html(o, &kids)?,
                }
                if !end_ws.is_empty() { *o += end_ws; }
                else if next_line || t == "style" { *o += ws; }
                *o += &format!("</{}>", t);
            },
            N::Attr { site, .. } => return site.fail("unexpected attribute"),
        }
    }
    Ok(())
}

fn has(v: &[N], name: &str, level: u32) -> bool {
    fn one(n: &N, name: &str, level: u32) -> bool {
        if level == 0 { return false; }
        match n {
            N::List { nodes, .. } => nodes.first().and_then(|h| h.atom()).map_or(false, |a| a.v.to_lowercase() == name)
                || has(nodes, name, level - 1),
            N::Attr { node, .. } => one(node, name, level - 1),
            _ => false,
        }
    }
    level > 0 && v.iter().any(|n| one(n, name, level))
}

fn html_document(v: &[N], doc: bool) -> R<String> {
    let mut o = String::new();
    if !doc { html(&mut o, v)?; return Ok(o); }
    if v.is_empty() {
        return Ok("<!DOCTYPE html>\n<html>\n<head></head>\n<body>\n<!-- Generated by SEAM (empty file) -->\n</body>\n</html>\n".into());
    }
    let (doctype, root) = (has(v, "!doctype", 1), has(v, "html", 1));
    let (head, body) = (has(v, "head", 2), has(v, "body", 2));
    if !doctype {
        o += "<!DOCTYPE html>\n";
        if !root {
            o += "<html>\n";
            if !head { o += "<head></head>\n"; }
            if !body { o += "<body>\n"; }
        }
    }
    html(&mut o, v)?;
    o += "\n";
    if !doctype && !root {
        if !body { o += "</body>\n"; }
        o += "</html>\n";
    }
    o.pop();
    Ok(o)
}

/* ----------------------------------------------------------------- CSS -- */

const FUNCTIONS: &[&str] = &["attr", "blur", "brightness", "calc", "circle", "color", "contrast",
    "counter", "counters", "cubic-bezier", "drop-shadow", "ellipse", "format", "grayscale", "hsl", "hsla",
    "hue-rotate", "hwb", "image", "inset", "invert", "lab", "lch", "linear-gradient", "matrix", "matrix3d",
    "opacity", "perspective", "polygon", "radial-gradient", "repeating-linear-gradient",
    "repeating-radial-gradient", "rgb", "rgba", "rotate", "rotate3d", "rotateX", "rotateY", "rotateZ",
    "saturate", "sepia", "scale", "scale3d", "scaleX", "scaleY", "scaleZ", "skew", "skewX", "skewY", "symbols",
    "translate", "translate3d", "translateX", "translateY", "translateZ", "url", "var", "supports"];
const NESTED: &[&str] = &["@charset", "@counter-style", "@document", "@font-feature-values", "@import",
    "@keyframes", "@media", "@namespace", "@supports"];
const ONELINE: &[&str] = &["@charset", "@import", "@namespace"];

fn value(n: &N) -> R<String> {
    match n {
        N::List { nodes, .. } => {
            let Some((h, tail)) = nodes.split_first() else { return Ok(String::new()) };
            let h = value(h)?;
            let tail = tail.iter().map(value).collect::<R<Vec<_>>>()?;
            let delim = if h == "rgba" || h == "hsla" { ", " } else { " " };
            let joined = tail.join(delim);
            let joined = joined.trim();
            Ok(if FUNCTIONS.contains(&h.as_str()) { format!("{}({})", h, joined) }
            else if ["+", "-", "*", "/"].contains(&h.as_str()) { format!("({})", tail.join(&format!(" {} ", h))) }
            else { format!("{} {}", h, joined) })
        },
        N::Raw(a) => Ok(a.v.clone()),
        N::Attr { site, .. } => site.fail("attribute in a value"),
        n => {
            let v = &n.atom().unwrap().v;
            Ok(if v.chars().any(|c| c.is_whitespace()) { format!("{:?}", v) } else { v.clone() })
        },
    }
}

fn rule(o: &mut String, n: &N, nodes: &[N]) -> R<()> {
    let k = nodes.iter().take_while(|n| n.atom().is_some()).count();
    let Some(head) = nodes[..k].first() else { return n.site().fail("no selector") };
    let head = head.atom().unwrap().v.as_str();
    // A rule without properties is reported; where exactly is left open.
    if k == nodes.len() && !NESTED.contains(&head) { return super::skip("css rule without properties"); }
    if NESTED.contains(&head) { return special(o, head, &nodes[1..]); }
    for s in &nodes[..k] { *o += &format!("{} ", s.atom().unwrap().v); }
    *o += "{\n";
    for p in &nodes[k..] {
        let N::Attr { kw, node, .. } = p else { return p.site().fail("property") };
        *o += &format!("  {}: {};\n", kw, value(node)?);
    }
    o.push('}');
    Ok(())
}

fn special(o: &mut String, head: &str, nodes: &[N]) -> R<()> {
    *o += &format!("{} ", head);
    let mut rules = false;
    for a in nodes {
        match a {
            N::List { nodes, ws, .. } if !ONELINE.contains(&head) => {
                if !rules { *o += "{\n"; }
                rules = true;
                *o += ws;
                rule(o, a, nodes)?;
            },
            _ if rules => return a.site().fail("expected a rule"),
            N::Attr { kw, node, .. } => *o += &format!("({}: {}) ", kw, value(node)?),
            _ => *o += &format!("{} ", value(a)?),
        }
    }
    *o += if ONELINE.contains(&head) { ";\n" } else { "}" };
    Ok(())
}

fn css(o: &mut String, v: &[N]) -> R<()> {
    for n in v {
        let N::List { nodes, ws, .. } = n else { return n.site().fail("not a rule") };
        *o += ws;
        rule(o, n, nodes)?;
    }
    Ok(())
}

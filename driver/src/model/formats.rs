//! Data files read by the parsers themselves, for texts beyond the
//! description in `data`. What the command makes of the parsed values is
//! described there and in `expand`, not taken from it.
use super::data::{D, P};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yaml_rust2::parser::{Event, EventReceiver, Parser};

enum Open { Map(Vec<(String, D)>, Option<String>), Seq(Vec<D>) }

struct Tree { stack: Vec<Open>, top: Vec<D>, docs: usize, refused: bool, unknown: bool }

impl Tree {
    fn value(&mut self, d: D) {
        match self.stack.last_mut() {
            None => self.top.push(d),
            Some(Open::Seq(v)) => v.push(d),
            Some(Open::Map(m, k)) => match (k.take(), d) {
                (Some(k), d) => m.push((k, d)),
                (None, D::Str(s)) => *k = Some(s),
                (None, _) => self.refused = true,
            },
        }
    }
}

impl EventReceiver for Tree {
    fn on_event(&mut self, e: Event) {
        match e {
            Event::DocumentStart => self.docs += 1,
            Event::Alias(_) => { self.refused = true; self.value(D::Str(String::new())) },
            Event::Scalar(s, _, _, tag) => { self.unknown |= tag.is_some(); self.value(D::Str(s)) },
            Event::SequenceStart(_, tag) => { self.unknown |= tag.is_some(); self.stack.push(Open::Seq(vec![])) },
            Event::MappingStart(_, tag) => { self.unknown |= tag.is_some(); self.stack.push(Open::Map(vec![], None)) },
            Event::SequenceEnd | Event::MappingEnd => match self.stack.pop() {
                Some(Open::Seq(v)) => self.value(D::Seq(v)),
                Some(Open::Map(m, _)) => self.value(D::Map(m)),
                None => self.unknown = true,
            },
            _ => {},
        }
    }
}

/// Neither long nor deep.
fn modest(text: &str) -> bool { text.len() < 4000 && text.matches(['[', '{', '-', '?', ':']).count() < 400 }

/// None: the text holds no document at all.
pub fn yaml(text: &str) -> Option<P> {
    if !modest(text) { return Some(P::Unknown); }
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut t = Tree { stack: vec![], top: vec![], docs: 0, refused: false, unknown: false };
        let ok = Parser::new_from_str(text).load(&mut t, true).is_ok();
        (ok, t)
    }));
    let Ok((ok, mut t)) = r else { return Some(P::Unknown) };
    // Several documents, aliases and compound keys cannot be represented.
    if !ok || t.docs > 1 || t.refused { return Some(P::Bad); }
    if t.unknown { return Some(P::Unknown); }
    match t.top.len() {
        0 => None,
        1 => Some(super::data::dup(t.top.remove(0))),
        _ => Some(P::Unknown),
    }
}

pub fn toml(text: &str) -> P {
    if !modest(text) { return P::Unknown; }
    fn value(v: toml::Value) -> D {
        match v {
            toml::Value::String(s) => D::Str(s),
            toml::Value::Integer(n) => D::Num(n.to_string()),
            toml::Value::Float(x) => D::Num(format!("{}", x)),
            toml::Value::Boolean(b) => D::Word(b.to_string()),
            toml::Value::Datetime(d) => D::Word(d.to_string()),
            toml::Value::Array(v) => D::Seq(v.into_iter().map(value).collect()),
            toml::Value::Table(t) => table(t),
        }
    }
    fn table(t: toml::Table) -> D {
        let mut m: Vec<(String, D)> = t.into_iter().map(|(k, v)| (k, value(v))).collect();
        m.sort_by(|a, b| a.0.cmp(&b.0));
        D::Map(m)
    }
    match catch_unwind(AssertUnwindSafe(|| text.parse::<toml::Table>())) {
        Err(_) => P::Unknown,
        Ok(Err(_)) => P::Bad,
        Ok(Ok(t)) => P::Ok(table(t)),
    }
}

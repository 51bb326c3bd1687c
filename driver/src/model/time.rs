//! Calendar, time-zone files and date formats.
use super::*;

/// Days since 1970-01-01 to (year, month, day).
pub fn civil(days: i64) -> (i64, i64, i64) {
    let z = days + 719468;
    let era = z.div_euclid(146097);
    let doe = z.rem_euclid(146097);
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (if m <= 2 { y + 1 } else { y }, m, d)
}

pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * (if m > 2 { m - 3 } else { m + 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}

const MON: [&str; 12] = ["January", "February", "March", "April", "May", "June", "July",
    "August", "September", "October", "November", "December"];
const DAY: [&str; 7] = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"];

/// Ok(None): an invalid format.
pub fn format(fmt: &str, secs: i64, nanos: i64, off: i64) -> R<Option<String>> {
    let local = secs + off;
    let (dn, sod) = (local.div_euclid(86400), local.rem_euclid(86400));
    let (y, m, d) = civil(dn);
    if !(0..=9999).contains(&y) { return skip("year"); }
    let (h, mi, s) = (sod / 3600, sod / 60 % 60, sod % 60);
    let wd = (dn + 4).rem_euclid(7);
    let yday = dn - days(y, 1, 1) + 1;
    let zone = |colon: &str| {
        let a = off.abs();
        // Offsets with seconds are rounded to minutes.
        if a % 60 != 0 { return None; }
        Some(format!("{}{:02}{}{:02}", if off < 0 { '-' } else { '+' }, a / 3600, colon, a / 60 % 60))
    };
    let mut out = String::new();
    let mut it = fmt.chars();
    while let Some(c) = it.next() {
        if c != '%' {
            if c.is_whitespace() && c != ' ' { return skip("format whitespace"); }
            out.push(c);
            continue;
        }
        let Some(k) = it.next() else { return Ok(None) };
        match k {
            'Y' => out += &format!("{:04}", y),
            'm' => out += &format!("{:02}", m),
            'd' => out += &format!("{:02}", d),
            'e' => out += &format!("{:2}", d),
            'H' => out += &format!("{:02}", h),
            'M' => out += &format!("{:02}", mi),
            'S' => out += &format!("{:02}", s),
            'I' => out += &format!("{:02}", (h + 11) % 12 + 1),
            'p' => out += if h < 12 { "AM" } else { "PM" },
            'y' => out += &format!("{:02}", y % 100),
            'j' => out += &format!("{:03}", yday),
            'u' => out += &format!("{}", if wd == 0 { 7 } else { wd }),
            'w' => out += &format!("{}", wd),
            'B' => out += MON[(m - 1) as usize],
            'b' => out += &MON[(m - 1) as usize][..3],
            'A' => out += DAY[wd as usize],
            'a' => out += &DAY[wd as usize][..3],
            'F' => out += &format!("{:04}-{:02}-{:02}", y, m, d),
            'T' => out += &format!("{:02}:{:02}:{:02}", h, mi, s),
            'R' => out += &format!("{:02}:{:02}", h, mi),
            'D' => out += &format!("{:02}/{:02}/{:02}", m, d, y % 100),
            's' => out += &format!("{}", secs),
            'z' => match zone("") { Some(z) => out += &z, None => return skip("zone seconds") },
            ':' => match it.next() {
                Some('z') => match zone(":") { Some(z) => out += &z, None => return skip("zone seconds") },
                _ => return skip("format"),
            },
            '%' => out.push('%'),
            'f' => out += &format!("{:09}", nanos),
            'k' => out += &format!("{:2}", h),
            'l' => out += &format!("{:2}", (h + 11) % 12 + 1),
            'P' => out += if h < 12 { "am" } else { "pm" },
            'h' => out += &MON[(m - 1) as usize][..3],
            'C' => out += &format!("{:02}", y / 100),
            'U' => out += &format!("{:02}", (yday - 1 + 7 - wd) / 7),
            'W' => out += &format!("{:02}", (yday - 1 + 7 - (wd + 6) % 7) / 7),
            'G' | 'g' | 'V' => {
                // The week belongs to the year its Thursday is in.
                let thursday = dn - (wd + 6) % 7 + 3;
                let (gy, _, _) = civil(thursday);
                if gy < 0 { return skip("year"); }
                let week = (thursday - days(gy, 1, 1)) / 7 + 1;
                out += &match k { 'G' => format!("{:04}", gy), 'g' => format!("{:02}", gy % 100), _ => format!("{:02}", week) };
            },
            'n' => out.push('\n'),
            't' => out.push('\t'),
            'c' => out += &format!("{} {} {:2} {:02}:{:02}:{:02} {}", &DAY[wd as usize][..3], &MON[(m - 1) as usize][..3], d, h, mi, s, format!("{:04}", y)),
            'x' => out += &format!("{:02}/{:02}/{:02}", m, d, y % 100),
            'X' => out += &format!("{:02}:{:02}:{:02}", h, mi, s),
            'r' => out += &format!("{:02}:{:02}:{:02} {}", (h + 11) % 12 + 1, mi, s, if h < 12 { "AM" } else { "PM" }),
            'v' => out += &format!("{:2}-{}-{:04}", d, &MON[(m - 1) as usize][..3], y),
            '.' => {
                let rest: String = it.clone().take(2).collect();
                if rest == "3f" { it.next(); it.next(); out += &format!(".{:03}", nanos / 1_000_000); }
                else { return skip("format"); }
            },
            'Q' | 'L' | 'J' | 'K' | 'i' | 'E' | 'O' | 'N' => return Ok(None),
            _ => return skip("format"),
        }
    }
    Ok(Some(out))
}

/// Parse a date by a format of digits only. Ok(None): does not fit.
pub fn parse(fmt: &str, text: &str) -> R<Option<(i64, Option<i64>)>> {
    let (mut y, mut mo, mut d, mut h, mut mi, mut s) = (None, None, None, None, None, None);
    let mut off = None;
    let t: Vec<char> = text.chars().collect();
    let mut i = 0;
    // Abbreviations first.
    if fmt.contains("%%") { return skip("format"); }
    let fmt = fmt.replace("%F", "%Y-%m-%d").replace("%T", "%H:%M:%S").replace("%R", "%H:%M");
    let mut it = fmt.chars();
    let num = |i: &mut usize, max: usize| -> Option<i64> {
        let n = t[*i..].iter().take(max).take_while(|c| c.is_ascii_digit()).count();
        if n == 0 { return None; }
        let v: String = t[*i..*i + n].iter().collect();
        *i += n;
        v.parse().ok()
    };
    // Blanks and signs before a number are the parser's business.
    macro_rules! field {
        ($v:ident, $w:expr) => {{
            if t.get(i).map_or(false, |c| c.is_whitespace() || *c == '+' || *c == '-') { return skip("blanks"); }
            match num(&mut i, $w) { Some(n) => $v = Some(n), None => return Ok(None) }
        }}
    }
    while let Some(c) = it.next() {
        if c == '%' {
            match it.next() {
                Some('Y') => {
                    if t[i..].iter().take(5).filter(|c| c.is_ascii_digit()).count() > 4 && t[i..].iter().take(5).all(|c| c.is_ascii_digit()) { return skip("long year"); }
                    field!(y, 4)
                },
                Some('m') => field!(mo, 2),
                Some('d') => field!(d, 2),
                Some('H') => field!(h, 2),
                Some('M') => field!(mi, 2),
                Some('S') => field!(s, 2),
                Some('z') => {
                    let Some(sign) = t.get(i) else { return Ok(None) };
                    if sign.is_whitespace() || *sign == '\u{2212}' || *sign == 'Z' || *sign == 'z' { return skip("zone"); }
                    let sg = match sign { '+' => 1, '-' => -1, _ => return Ok(None) };
                    let digits: String = t[i + 1..].iter().take(4).collect();
                    if digits.len() != 4 || !digits.bytes().all(|b| b.is_ascii_digit()) { return skip("zone"); }
                    i += 5;
                    let (hh, mm): (i64, i64) = (digits[..2].parse().unwrap(), digits[2..].parse().unwrap());
                    if mm > 59 || hh > 23 { return skip("zone"); }
                    off = Some(sg * (hh * 3600 + mm * 60));
                },
                Some('s') => return skip("stamp"),
                _ => return skip("format"),
            }
        } else if c == ' ' {
            // Spaces stand for any amount of blanks.
            if t.get(i) != Some(&' ') || t.get(i + 1) == Some(&' ') { return skip("blanks"); }
            i += 1;
        } else {
            if c.is_whitespace() || t.get(i).map_or(false, |c| c.is_whitespace()) { return skip("blanks"); }
            if t.get(i) != Some(&c) { return Ok(None); }
            i += 1;
        }
    }
    if i != t.len() { return Ok(None); }
    let (Some(y), Some(mo), Some(d), Some(h), Some(mi)) = (y, mo, d, h, mi) else { return Ok(None) };
    let s = match s { Some(60) => return skip("leap"), Some(s) => s, None => 0 };
    if !(1..=12).contains(&mo) || d < 1 || h > 23 || mi > 59 || s > 59 { return Ok(None); }
    let dn = days(y, mo, d);
    if civil(dn) != (y, mo, d) { return Ok(None); }
    Ok(Some((dn * 86400 + h * 3600 + mi * 60 + s, off)))
}

/// The offset a TZ value such as `CET-1` or `<+0330>-3:30` stands for.
pub fn posix(tz: &str) -> Option<i64> {
    let rest = match tz.strip_prefix('<') {
        Some(r) => { let (n, r) = r.split_once('>')?; if n.len() < 3 || !n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'+' || b == b'-') { return None; } r },
        None => { let n = tz.bytes().take_while(|b| b.is_ascii_alphabetic()).count(); if n < 3 { return None; } &tz[n..] },
    };
    let (sign, rest) = match rest.strip_prefix('-') { Some(r) => (1, r), None => (-1, rest.strip_prefix('+').unwrap_or(rest)) };
    let f: Vec<&str> = rest.split(':').collect();
    if f.len() > 3 || f.iter().any(|x| x.is_empty() || x.len() > 2 || !x.bytes().all(|b| b.is_ascii_digit())) { return None; }
    let v: Vec<i64> = f.iter().map(|x| x.parse().unwrap()).collect();
    let s = v[0] * 3600 + v.get(1).unwrap_or(&0) * 60 + v.get(2).unwrap_or(&0);
    if v[0] > 23 || v[1..].iter().any(|x| *x > 59) { return None; }
    Some(sign * s)
}

/// A time zone: the offset before the first transition, then the changes.
#[derive(Clone, Debug, Default)]
pub struct Zone { pub first: i64, pub changes: Vec<(i64, i64)> }

impl Zone {
    pub fn at(&self, secs: i64) -> i64 {
        self.changes.iter().rev().find(|(t, _)| secs >= *t).map_or(self.first, |c| c.1)
    }
    /// The instant that reads as this local time. Err: ambiguous, or too close to a change to say.
    pub fn earliest(&self, local: i64) -> Result<Option<i64>, ()> {
        let mut offs = vec![self.first];
        offs.extend(self.changes.iter().map(|c| c.1));
        let mut prev = self.first;
        for (t, o) in &self.changes {
            for edge in [t + prev, t + o] { if (local - edge).abs() <= 2 { return Err(()); } }
            prev = *o;
        }
        let mut c: Vec<i64> = offs.iter().map(|o| local - o).filter(|t| self.at(*t) + t == local).collect();
        c.sort();
        c.dedup();
        // Which of two readings is meant is left open.
        if c.len() > 1 { return Err(()); }
        Ok(c.first().copied())
    }
    /// As a version 2 zone file.
    pub fn tzif(&self) -> Vec<u8> {
        let mut types = vec![self.first];
        for (_, o) in &self.changes { if !types.contains(o) { types.push(*o); } }
        let body = |wide: bool, version: u8| {
            let mut b = b"TZif".to_vec();
            b.push(version);
            b.extend([0; 15]);
            let ch: Vec<&(i64, i64)> = self.changes.iter().filter(|c| wide || (c.0 as i32) as i64 == c.0).collect();
            for n in [0u32, 0, 0, ch.len() as u32, types.len() as u32, 4] { b.extend(n.to_be_bytes()); }
            for c in &ch { if wide { b.extend(c.0.to_be_bytes()) } else { b.extend((c.0 as i32).to_be_bytes()) } }
            for c in &ch { b.push(types.iter().position(|t| *t == c.1).unwrap() as u8); }
            for t in &types { b.extend((*t as i32).to_be_bytes()); b.push(0); b.push(0); }
            b.extend(b"SIM\0");
            b
        };
        let mut v = body(false, b'2');
        v.extend(body(true, b'2'));
        v.extend(b"\n\n");
        v
    }
    pub fn parse(b: &[u8]) -> Option<Zone> {
        let head = |b: &[u8]| -> Option<[usize; 6]> {
            if b.get(..4)? != b"TZif" { return None; }
            let mut n = [0; 6];
            for i in 0..6 { n[i] = u32::from_be_bytes(b.get(20 + 4 * i..24 + 4 * i)?.try_into().ok()?) as usize; }
            Some(n)
        };
        let n = head(b)?;
        let skip = 44 + n[3] * 5 + n[4] * 6 + n[5] + n[2] * 8 + n[1] + n[0];
        let b = b.get(skip..)?;
        let n = head(b)?;
        let t = b.get(44..44 + n[3] * 8)?;
        let idx = b.get(44 + n[3] * 8..44 + n[3] * 9)?;
        let ty = b.get(44 + n[3] * 9..44 + n[3] * 9 + n[4] * 6)?;
        let off = |i: usize| -> Option<i64> { Some(i32::from_be_bytes(ty.get(i * 6..i * 6 + 4)?.try_into().ok()?) as i64) };
        let mut z = Zone { first: off(0)?, changes: vec![] };
        for i in 0..n[3] {
            z.changes.push((i64::from_be_bytes(t[i * 8..i * 8 + 8].try_into().ok()?), off(idx[i] as usize)?));
        }
        Some(z)
    }
}

//! Projection of sink output to tokens. Purely lexical, carries no expectations.
use crate::{json::{obj, J}, style::style_json};
use stylish::Style;

fn txt(t: &str) -> J {
    obj([("k", "txt".into()), ("t", t.into())])
}
fn bad(t: &str) -> J {
    obj([("k", "bad".into()), ("t", t.into())])
}

/// Parameters of the SGR sequence at the start of `s`, and its length.
fn sgr(s: &str) -> Option<(Vec<J>, usize)> {
    let body = s.strip_prefix("\x1b[")?;
    let end = body.find(|c: char| !(c.is_ascii_digit() || c == ';'))?;
    if body.as_bytes()[end] != b'm' {
        return None;
    }
    let params = body[..end]
        .split(';')
        .map(|p| J::Num(if p.is_empty() { 0 } else { p.parse().unwrap_or(9999) }))
        .collect();
    Some((params, 2 + end + 1))
}

/// `text` is what the caller wrote. If the output ends in it, it is taken to be it, so that texts
/// containing escape characters are not taken apart.
pub fn ansi(bytes: &[u8], text: Option<&str>) -> Vec<J> {
    let Ok(s) = std::str::from_utf8(bytes) else {
        return vec![bad("invalid UTF-8")];
    };
    let (mut head, tail) = match text {
        Some(t) if !t.is_empty() && s.ends_with(t) => s.split_at(s.len() - t.len()),
        _ => (s, ""),
    };
    let mut out = Vec::new();
    while !head.is_empty() {
        if let Some((params, n)) = sgr(head) {
            out.push(obj([("k", "sgr".into()), ("p", J::Arr(params))]));
            head = &head[n..];
        } else {
            let first = head.chars().next().unwrap().len_utf8();
            let end = head[first..].find('\x1b').map_or(head.len(), |e| e + first);
            out.push(txt(&head[..end]));
            head = &head[end..];
        }
    }
    if !tail.is_empty() {
        out.push(txt(tail));
    }
    out
}

pub fn plain(bytes: &[u8]) -> Vec<J> {
    match std::str::from_utf8(bytes) {
        Ok("") => vec![],
        Ok(s) => vec![txt(s)],
        Err(_) => vec![bad("invalid UTF-8")],
    }
}

fn char_ref(s: &str) -> Option<(char, usize)> {
    let end = s.find(';')?;
    let name = &s[1..end];
    let c = match name {
        "amp" => '&',
        "lt" => '<',
        "gt" => '>',
        "quot" => '"',
        "apos" => '\'',
        _ => {
            let num = name.strip_prefix('#')?;
            let n = match num.strip_prefix(['x', 'X']) {
                Some(h) => u32::from_str_radix(h, 16).ok()?,
                None => num.parse().ok()?,
            };
            char::from_u32(n)?
        }
    };
    Some((c, end + 1))
}

pub fn html(bytes: &[u8]) -> Vec<J> {
    let Ok(mut s) = std::str::from_utf8(bytes) else {
        return vec![bad("invalid UTF-8")];
    };
    let mut out = Vec::new();
    let mut text = String::new();
    while !s.is_empty() {
        if s.starts_with('<') {
            if !text.is_empty() {
                out.push(txt(&text));
                text.clear();
            }
            let Some(end) = s.find('>') else {
                out.push(bad(s));
                return out;
            };
            let tag = &s[..=end];
            out.push(if tag == "</span>" {
                obj([("k", "close".into())])
            } else if let Some(decls) = span(tag) {
                obj([("k", "open".into()), ("d", J::Arr(decls))])
            } else {
                bad(tag)
            });
            s = &s[end + 1..];
        } else if s.starts_with('&') {
            match char_ref(s) {
                Some((c, n)) => {
                    text.push(c);
                    s = &s[n..];
                }
                None => {
                    out.push(bad(s));
                    return out;
                }
            }
        } else {
            let end = s.find(['<', '&']).unwrap_or(s.len());
            text.push_str(&s[..end]);
            s = &s[end..];
        }
    }
    if !text.is_empty() {
        out.push(txt(&text));
    }
    out
}

/// Declarations of `<span style=...>` (attribute value unquoted or quoted).
fn span(tag: &str) -> Option<Vec<J>> {
    let value = tag.strip_prefix("<span style=")?.strip_suffix('>')?;
    let value = if let Some(v) = value.strip_prefix('"') {
        v.strip_suffix('"')?
    } else {
        if value.contains(|c: char| c.is_whitespace() || "\"'=<>`".contains(c)) {
            return None;
        }
        value
    };
    value
        .split(';')
        .filter(|d| !d.trim().is_empty())
        .map(|d| {
            let (p, v) = d.split_once(':')?;
            Some(J::Arr(vec![p.trim().into(), v.trim().into()]))
        })
        .collect()
}

pub fn chunks(v: &[(String, Style)]) -> Vec<J> {
    v.iter()
        .map(|(t, s)| obj([("k", "chk".into()), ("t", t.as_str().into()), ("s", style_json(*s))]))
        .collect()
}

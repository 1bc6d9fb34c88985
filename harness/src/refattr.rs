//! Reference model of the attribute syntax: a recursive-descent reading of the grammar
//!   group   = "{" item* "}"
//!   item    = ws | "." name | "#" name | "%" text ("%" | at "}") | name "=" (name | quoted)
//! where a class, id or bare value must be followed by whitespace or "}".
use jotdown::AttributeKind;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum K {
    Class,
    Id,
    Pair(String),
    Comment,
}
pub type Elems = Vec<(K, String)>;

fn name(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b':' || c == b'_' || c == b'-'
}

/// Ok((end, elements)), or Err(position of the first byte that is wrong; the length if it ended
/// too early).
pub fn group(s: &[u8], at: usize) -> Result<(usize, Elems), usize> {
    let text = |a: usize, b: usize| String::from_utf8_lossy(&s[a..b]).into_owned();
    let names = |mut p: usize| {
        while p < s.len() && name(s[p]) {
            p += 1;
        }
        p
    };
    let mut out = Vec::new();
    let mut p = at;
    if s.get(p) != Some(&b'{') {
        return Err(p);
    }
    p += 1;
    loop {
        let Some(&c) = s.get(p) else { return Err(p) };
        match c {
            b'}' => return Ok((p + 1, out)),
            _ if c.is_ascii_whitespace() => p += 1,
            b'.' | b'#' => {
                let e = names(p + 1);
                if e == p + 1 {
                    return Err(e);
                }
                out.push((if c == b'.' { K::Class } else { K::Id }, text(p + 1, e)));
                p = e;
                match s.get(p) {
                    Some(c) if c.is_ascii_whitespace() || *c == b'}' => {}
                    _ => return Err(p),
                }
            }
            b'%' => {
                let mut e = p + 1;
                while e < s.len() && s[e] != b'%' && s[e] != b'}' {
                    e += 1;
                }
                if e == s.len() {
                    return Err(e);
                }
                // runs of line breaks collapse into one
                let mut v = String::new();
                for (i, part) in text(p + 1, e).split('\n').enumerate() {
                    if i > 0 && !v.ends_with('\n') {
                        v.push('\n');
                    }
                    v.push_str(part);
                }
                out.push((K::Comment, v));
                p = if s[e] == b'%' { e + 1 } else { e };
            }
            _ if name(c) => {
                let e = names(p);
                let key = text(p, e);
                if s.get(e) != Some(&b'=') {
                    return Err(e);
                }
                p = e + 1;
                match s.get(p) {
                    Some(b'"') => {
                        p += 1;
                        let mut lines: Vec<Vec<u8>> = vec![vec![]];
                        loop {
                            let Some(&c) = s.get(p) else { return Err(p) };
                            match c {
                                b'"' => break,
                                b'\n' => lines.push(vec![]),
                                b'\\' => {
                                    lines.last_mut().unwrap().push(c);
                                    // the next character, unless a line break, is literal
                                    if let Some(&n) = s.get(p + 1) {
                                        if n != b'\n' {
                                            lines.last_mut().unwrap().push(n);
                                            p += 1;
                                        }
                                    }
                                }
                                _ => lines.last_mut().unwrap().push(c),
                            }
                            p += 1;
                        }
                        p += 1;
                        let v: Vec<String> = lines
                            .into_iter()
                            .filter(|l| !l.is_empty())
                            .map(|l| String::from_utf8_lossy(&l).into_owned())
                            .collect();
                        out.push((K::Pair(key), v.join(" ")));
                    }
                    Some(c) if name(*c) => {
                        let e = names(p);
                        out.push((K::Pair(key), text(p, e)));
                        p = e;
                        match s.get(p) {
                            Some(c) if c.is_ascii_whitespace() || *c == b'}' => {}
                            _ => return Err(p),
                        }
                    }
                    _ => return Err(p),
                }
            }
            _ => return Err(p),
        }
    }
}

/// Consecutive groups starting at `at`; None if the first is invalid.
pub fn groups(s: &[u8], at: usize) -> Option<(usize, Elems)> {
    let (mut end, mut elems) = group(s, at).ok()?;
    while s.get(end) == Some(&b'{') {
        let Ok((e, more)) = group(s, end) else { break };
        end = e;
        elems.extend(more);
    }
    Some((end, elems))
}

/// Model of `Attributes::try_from`.
pub fn parse_all(s: &str) -> Result<Elems, usize> {
    let s = s
        .trim_end_matches(|c: char| c.is_ascii_whitespace())
        .as_bytes();
    let mut p = 0;
    let mut out = Vec::new();
    loop {
        let (e, more) = group(s, p)?;
        out.extend(more);
        p = e;
        if p == s.len() {
            return Ok(out);
        }
        if s[p] != b'{' {
            return Err(p);
        }
    }
}

/// Value as displayed: backslashes before ASCII punctuation removed.
pub fn display(raw: &str) -> String {
    let mut out = String::new();
    let mut it = raw.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' && it.peek().is_some_and(char::is_ascii_punctuation) {
            out.push(it.next().unwrap());
        } else {
            out.push(c);
        }
    }
    out
}

pub fn key(k: &K) -> Option<&str> {
    match k {
        K::Class => Some("class"),
        K::Id => Some("id"),
        K::Pair(k) => Some(k),
        K::Comment => None,
    }
}

/// Last value wins, except class values that are joined; keys in order of first appearance.
pub fn unique(elems: &Elems) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = Vec::new();
    for (k, v) in elems {
        let Some(k) = key(k) else { continue };
        if let Some((_, old)) = out.iter_mut().find(|(o, _)| o == k) {
            if k == "class" {
                if !v.is_empty() {
                    if !old.is_empty() {
                        old.push(' ');
                    }
                    old.push_str(v);
                }
            } else {
                *old = v.clone();
            }
        } else {
            out.push((k.to_string(), v.clone()));
        }
    }
    out
}

pub fn from_jd(a: &jotdown::Attributes) -> Elems {
    a.iter()
        .map(|(k, v)| {
            let k = match k {
                AttributeKind::Class => K::Class,
                AttributeKind::Id => K::Id,
                AttributeKind::Pair { key } => K::Pair(key.to_string()),
                AttributeKind::Comment => K::Comment,
            };
            (k, raw(v))
        })
        .collect()
}

/// The raw (unprocessed) text of a value, which is only observable through its debug form.
pub fn raw(v: &jotdown::AttributeValue) -> String {
    let a: jotdown::Attributes = vec![(AttributeKind::Comment, v.clone())].into();
    let s = format!("{a:?}");
    s[2..s.len() - 2].to_string()
}

pub fn to_jd(e: &Elems) -> jotdown::Attributes<'static> {
    e.iter()
        .map(|(k, v)| {
            let k = match k {
                K::Class => AttributeKind::Class,
                K::Id => AttributeKind::Id,
                K::Pair(k) => AttributeKind::Pair {
                    key: k.clone().into(),
                },
                K::Comment => AttributeKind::Comment,
            };
            (k, v.clone().into())
        })
        .collect()
}

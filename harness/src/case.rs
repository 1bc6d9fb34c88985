//! One generated case: some texts and some numbers; what they mean is up to the check.
use crate::rng;
use std::fmt::Write as _;

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Case {
    pub t: Vec<String>,
    pub n: Vec<u64>,
}

impl Case {
    pub fn doc(s: String) -> Self {
        Case {
            t: vec![s],
            n: vec![],
        }
    }
    pub fn len(&self) -> usize {
        self.t.iter().map(String::len).sum()
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325;
        for t in &self.t {
            h = rng::fnv(t.as_bytes(), h);
            h = rng::fnv(&[0xff], h);
        }
        for n in &self.n {
            h = rng::fnv(&n.to_le_bytes(), h);
        }
        rng::mix(h)
    }
    /// Text form, for replay files: one line per part.
    pub fn to_text(&self) -> String {
        let mut s = String::new();
        for t in &self.t {
            writeln!(s, "text {}", quote(t)).unwrap();
        }
        for n in &self.n {
            writeln!(s, "num {n}").unwrap();
        }
        s
    }
    pub fn from_text(s: &str) -> Option<Self> {
        let mut c = Case::default();
        for l in s.lines() {
            if let Some(t) = l.strip_prefix("text ") {
                c.t.push(unquote(t)?);
            } else if let Some(n) = l.strip_prefix("num ") {
                c.n.push(n.trim().parse().ok()?);
            }
        }
        Some(c)
    }
}

/// JSON string.
pub fn quote(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f || (0x80..0xa1).contains(&(c as u32)) => {
                write!(o, "\\u{:04x}", c as u32).unwrap();
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn unquote(s: &str) -> Option<String> {
    let s = s.trim().strip_prefix('"')?.strip_suffix('"')?;
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        o.push(match it.next()? {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            'u' => {
                let h: String = it.by_ref().take(4).collect();
                char::from_u32(u32::from_str_radix(&h, 16).ok()?)?
            }
            c => c,
        });
    }
    Some(o)
}

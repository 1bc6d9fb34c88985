//! Literals of the code under test, which generators use now and then: what the code compares with.
//!
//! This only affects what is generated, never what is expected.
use std::sync::OnceLock;

pub struct Dict {
    pub strings: Vec<String>,
    pub numbers: Vec<usize>,
}

pub fn get() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let repo = std::env::var_os("HARNESS_REPO").map_or_else(|| "/repo".into(), std::path::PathBuf::from);
        let mut files: Vec<_> = std::fs::read_dir(repo.join("src"))
            .map(|d| d.flatten().map(|e| e.path()).collect())
            .unwrap_or_default();
        files.sort();
        let mut d = Dict {
            strings: vec!["a".into()],
            numbers: vec![2],
        };
        for f in files {
            let name = f.file_name().map(|n| n.to_string_lossy().into_owned()).unwrap_or_default();
            if name.ends_with(".rs") && !name.starts_with("test") {
                if let Ok(s) = std::fs::read_to_string(&f) {
                    scan(&s, &mut d);
                }
            }
        }
        d.strings.sort();
        d.strings.dedup();
        d.numbers.sort_unstable();
        d.numbers.dedup();
        d
    })
}

fn scan(s: &str, d: &mut Dict) {
    let c: Vec<char> = s.chars().collect();
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    let mut i = 0;
    let mut start_of_line = true;
    while i < c.len() {
        match c[i] {
            '\n' => {
                start_of_line = true;
                i += 1;
                continue;
            }
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
                continue;
            }
            // tests are at the end of a file
            '#' if start_of_line && c[i..].starts_with(&['#', '[', 'c', 'f', 'g', '(', 't', 'e', 's', 't']) => return,
            'r' if at(i + 1) == '"' || at(i + 1) == '#' && at(i + 2) == '"' => {
                let hash = at(i + 1) == '#';
                let from = i + 2 + usize::from(hash);
                let mut to = from;
                while to < c.len() && !(c[to] == '"' && (!hash || at(to + 1) == '#')) {
                    to += 1;
                }
                string(c[from..to].iter().collect(), d);
                i = to;
            }
            '"' => {
                let (t, to) = quoted(&c, i + 1, '"');
                string(t, d);
                i = to;
            }
            '\'' => {
                // not a lifetime
                if at(i + 1) == '\\' || at(i + 2) == '\'' {
                    let (t, to) = quoted(&c, i + 1, '\'');
                    string(t, d);
                    i = to;
                }
            }
            x if x.is_ascii_alphanumeric() || x == '_' => {
                let from = i;
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
                let t: String = c[from..i].iter().filter(|c| **c != '_').collect();
                let n = if let Some(h) = t.strip_prefix("0x") {
                    usize::from_str_radix(h, 16).ok()
                } else if x.is_ascii_digit() {
                    t.trim_end_matches(|c: char| c == 'u').parse().ok()
                } else {
                    match t.as_str() {
                        "u8" | "i8" => Some(255),
                        "u16" | "i16" => Some(65535),
                        _ => None,
                    }
                };
                if let Some(n) = n.filter(|n| (2..1 << 62).contains(n)) {
                    d.numbers.push(n);
                }
                start_of_line = false;
                continue;
            }
            _ => {}
        }
        start_of_line &= c.get(i).is_some_and(|c| c.is_whitespace());
        i += 1;
    }
}

/// Contents until the end of the literal.
fn quoted(c: &[char], mut i: usize, end: char) -> (String, usize) {
    let mut s = String::new();
    while i < c.len() && c[i] != end {
        if c[i] == '\\' {
            i += 1;
            match c.get(i) {
                Some('n') => s.push('\n'),
                Some('t') => s.push('\t'),
                Some('r') => s.push('\r'),
                Some('0') => s.push('\0'),
                Some('u') => {
                    let to = (i..c.len()).find(|j| c[*j] == '}').unwrap_or(i);
                    let h: String = c.get(i + 2..to).unwrap_or(&[]).iter().collect();
                    s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    i = to;
                }
                Some('x') => {
                    let h: String = c.get(i + 1..i + 3).unwrap_or(&[]).iter().collect();
                    s.extend(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32));
                    i += 2;
                }
                Some(x) => s.push(*x),
                None => {}
            }
        } else {
            s.push(c[i]);
        }
        i += 1;
    }
    (s, i)
}

fn string(s: String, d: &mut Dict) {
    if !s.is_empty() && s.len() <= 24 {
        d.strings.push(s);
    }
}

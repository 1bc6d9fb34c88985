//! C20, C23-C25: rendering.
use super::*;
use crate::gen::*;
use crate::htmlmodel;
use crate::htmlmodel::P;
use crate::jd::Ev;
use crate::jd::Mode;
use jotdown::Container as C;
use jotdown::Event as E;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C20",
            rule: "documents rich in footnotes: events against the reference parser, minified HTML against the reference renderer and its tokens for numbers, links, ids and back links; non-trivial: has a reference",
            labels: &["several references", "referenced and defined", "reference in footnote", "undefined", "defined twice"],
            gen: |r, g| {
                Case::doc(doc(
                    r,
                    g,
                    Focus::Foot,
                    &[FOOT, WS, WORD, BLOCK, LIST, LINK, DELIM, TABLE, ATTR],
                ))
            },
            test: test_notes,
            relevant: relevant_notes,
            quick: 600_000,
        },
        Prop {
            id: "C23",
            rule: "any documents: minified HTML against the reference renderer, default HTML against it apart from whitespace between tags; non-trivial: at least 3 elements",
            labels: &["raw html", "image", "footnotes", "tight list", "attributes"],
            gen: |r, g| Case::doc(any_doc(r, g)),
            test: test_html,
            relevant: always,
            quick: 800_000,
        },
        Prop {
            id: "C24",
            rule: "documents with characters special to HTML in all places: the output is tokenized and must give back the elements, attribute values and texts; non-trivial: a special character was escaped",
            labels: &["in text", "in attribute value", "in image description", "raw"],
            gen: gen_hostile,
            test: test_escaping,
            relevant: always,
            quick: 700_000,
        },
        Prop {
            id: "C25",
            rule: "any documents in default, minified and indented mode with random indentation string and level against the reference renderer and each other; non-trivial: at least 2 levels of depth",
            labels: &["non-zero initial level", "task list", "line break in text", "code"],
            gen: gen_modes,
            test: test_modes,
            relevant: always,
            quick: 500_000,
        },
    ]
}

pub fn first_diff(a: &str, b: &str) -> String {
    let i = a
        .char_indices()
        .zip(b.char_indices())
        .find(|(x, y)| x.1 != y.1)
        .map_or(a.len().min(b.len()), |(x, _)| x.0);
    let cut = |s: &str| -> String {
        let mut from = i.saturating_sub(60).min(s.len());
        while !s.is_char_boundary(from) {
            from -= 1;
        }
        s[from..].chars().take(160).collect()
    };
    format!("HTML differs at {i}:\n  actual:   {:?}\n  expected: {:?}", cut(a), cut(b))
}

// ---- tokens ----

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum T {
    Open(String, Vec<(String, String)>),
    Close(String),
    Text(String),
}

fn decode(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut s = s;
    while let Some(i) = s.find('&') {
        o.push_str(&s[..i]);
        s = &s[i..];
        let (r, c) = [
            ("&amp;", '&'),
            ("&lt;", '<'),
            ("&gt;", '>'),
            ("&quot;", '"'),
            ("&nbsp;", '\u{a0}'),
        ]
        .into_iter()
        .find(|(r, _)| s.starts_with(r))
        .ok_or_else(|| format!("unescaped ampersand: {:?}", s.chars().take(20).collect::<String>()))?;
        o.push(c);
        s = &s[r.len()..];
    }
    o.push_str(s);
    Ok(o)
}

/// What an HTML tokenizer sees; an error for what the renderer never has reason to write.
pub fn tokenize(html: &str) -> Result<Vec<T>, String> {
    let mut out: Vec<T> = Vec::new();
    let mut s = html;
    let name = |s: &str| s.chars().take_while(char::is_ascii_alphanumeric).count();
    while !s.is_empty() {
        let Some(i) = s.find('<') else {
            out.push(T::Text(decode(s)?));
            break;
        };
        if i > 0 {
            out.push(T::Text(decode(&s[..i])?));
            s = &s[i..];
        }
        let bad = |w: &str| Err(format!("{w}: {:?}", s.chars().take(40).collect::<String>()));
        if let Some(t) = s.strip_prefix("</") {
            let n = name(t);
            if n == 0 || t.as_bytes().get(n) != Some(&b'>') {
                return bad("malformed end tag");
            }
            out.push(T::Close(t[..n].to_string()));
            s = &t[n + 1..];
            continue;
        }
        let mut t = &s[1..];
        let n = name(t);
        if n == 0 {
            return bad("unescaped <");
        }
        let tag = t[..n].to_string();
        t = &t[n..];
        let mut attrs = Vec::new();
        loop {
            if let Some(u) = t.strip_prefix('>').or_else(|| t.strip_prefix("/>")) {
                t = u;
                break;
            }
            let Some(u) = t.strip_prefix(' ') else {
                return bad("malformed tag");
            };
            // anything but these is part of a name to a tokenizer
            let n = u
                .find(|c: char| c.is_ascii_whitespace() || matches!(c, '=' | '>' | '/' | '"' | '\''))
                .unwrap_or(u.len());
            let Some(v) = u[n..].strip_prefix("=\"") else {
                return bad("malformed attribute");
            };
            let Some(e) = v.find('"') else {
                return bad("unfinished attribute");
            };
            attrs.push((u[..n].to_string(), decode(&v[..e])?));
            t = &v[e + 1..];
        }
        out.push(T::Open(tag, attrs));
        s = t;
    }
    Ok(out)
}

/// Tokens of pieces in minified form; None if there is raw content.
fn tokens(ps: &[P]) -> Option<Vec<T>> {
    let mut out: Vec<T> = Vec::new();
    fn text(out: &mut Vec<T>, s: &str) {
        if s.is_empty() {
            return;
        }
        if let Some(T::Text(t)) = out.last_mut() {
            t.push_str(s);
        } else {
            out.push(T::Text(s.to_string()));
        }
    }
    let values = |a: &[(String, String)]| {
        a.iter()
            .map(|(k, v)| (k.clone(), v.replace(htmlmodel::NBSP, "\u{a0}")))
            .collect()
    };
    for p in ps {
        match p {
            P::Break(_) | P::First(_) => {}
            P::Soft(_) => text(&mut out, "\n"),
            P::Open(n, a, _) => out.push(T::Open(n.to_string(), values(a))),
            P::Heading(l, a) => out.push(T::Open(format!("h{l}"), values(a))),
            P::CloseHeading(l) => out.push(T::Close(format!("h{l}"))),
            P::Close(n) => out.push(T::Close(n.to_string())),
            P::Text(s) => text(&mut out, s),
            P::Raw(_) => return None,
            P::Nbsp => text(&mut out, "\u{a0}"),
        }
    }
    Some(out)
}

fn diff_tokens(a: &[T], b: &[T]) -> Option<String> {
    if a == b {
        return None;
    }
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    Some(format!(
        "token {i} is {:?}, expected {:?}",
        a.get(i),
        b.get(i)
    ))
}

fn html_of(ev: &[Ev], len: usize, mode: &Mode) -> String {
    jd::render(len, ev.iter().map(|e| e.0.clone()), mode)
}

// ---- C20 ----

fn about_note(e: &Event) -> bool {
    matches!(
        e,
        E::FootnoteReference(_) | E::Start(C::Footnote { .. }, _) | E::End(C::Footnote { .. })
    ) || matches!(e, E::Str(s) if s.contains("[^"))
}

fn relevant_notes(c: &Case) -> bool {
    if let Some(d) = against_model(&c.t[0], false).1 {
        return d.a.iter().chain(&d.r).any(about_note);
    }
    c.t[0].contains("[^")
}

fn test_notes(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let (ev, d) = against_model(src, false);
    if let Some(d) = d {
        return Out::Fail(d.msg);
    }
    let html = html_of(&ev, src.len(), &Mode::Minified);
    let ps = match htmlmodel::pieces(&ev) {
        Ok(p) => p,
        Err(e) => return fail(e),
    };
    let want = htmlmodel::text(&ps, &Mode::Minified);
    if html != want {
        return fail(first_diff(&html, &want));
    }
    let mut l = 0;
    let refs = ev.iter().filter(|e| matches!(e.0, E::FootnoteReference(_))).count();
    l |= u64::from(refs > 0);
    l |= u64::from(refs > 1) << 1;
    let raw = ps.iter().any(|p| matches!(p, P::Raw(_)));
    // ids and links, unless the document has such attributes itself
    if !raw && !src.contains("{#") && !["id=", "href=", "role="].iter().any(|k| src.contains(k)) {
        let ts = match tokenize(&html) {
            Ok(t) => t,
            Err(_) => return Out::Pass(l),
        };
        let attr = |t: &T, k: &str| -> Option<String> {
            match t {
                T::Open(_, a) => a.iter().find(|a| a.0 == k).map(|a| a.1.clone()),
                _ => None,
            }
        };
        // numbers as shown, in document order
        let mut shown = Vec::new();
        let mut entries = Vec::new();
        let mut backs = Vec::new();
        for (i, t) in ts.iter().enumerate() {
            match attr(t, "role").as_deref() {
                Some("doc-noteref") => {
                    let n = match ts.get(i + 2) {
                        Some(T::Text(t)) => t.clone(),
                        _ => return fail("reference without number"),
                    };
                    if attr(t, "href") != Some(format!("#fn{n}")) || attr(t, "id") != Some(format!("fnref{n}")) {
                        return fail(format!("reference {n} is {t:?}"));
                    }
                    shown.push((n.parse::<usize>().unwrap_or(0), entries.len()));
                }
                Some("doc-backlink") => backs.push((attr(t, "href").unwrap_or_default(), entries.len())),
                _ => {}
            }
            if let (T::Open(n, _), Some(id)) = (t, attr(t, "id")) {
                if n == "li" && id.starts_with("fn") {
                    entries.push(id);
                }
            }
        }
        let mut seen = 0;
        for (n, _) in &shown {
            if *n == 0 || *n > seen + 1 {
                return fail(format!("reference numbers not in order of first reference: {shown:?}"));
            }
            seen = seen.max(*n);
        }
        if entries.len() != seen {
            return fail(format!("{} entries for {seen} footnotes", entries.len()));
        }
        for (i, e) in entries.iter().enumerate() {
            if *e != format!("fn{}", i + 1) {
                return fail(format!("entry {} has id {e:?}", i + 1));
            }
        }
        let want: Vec<(String, usize)> = (1..=seen).map(|n| (format!("#fnref{n}"), n)).collect();
        if backs != want {
            return fail(format!("back links {backs:?}, expected {want:?}"));
        }
        let sections = ts
            .iter()
            .filter(|t| attr(t, "role").as_deref() == Some("doc-endnotes"))
            .count();
        if sections != usize::from(seen > 0) {
            return fail(format!("{sections} endnote sections"));
        }
        l |= u64::from(shown.iter().any(|s| s.1 > 0)) << 3;
    }
    let mut defs: Vec<&str> = ev
        .iter()
        .filter_map(|e| match &e.0 {
            E::Start(C::Footnote { label }, _) => Some(label.as_ref()),
            _ => None,
        })
        .collect();
    let k = defs.len();
    let is_ref = |x: &str| ev.iter().any(|e| matches!(&e.0, E::FootnoteReference(l) if l.as_ref() == x));
    l |= u64::from(defs.iter().any(|d| is_ref(d))) << 2;
    l |= u64::from(ev.iter().any(|e| matches!(&e.0, E::FootnoteReference(l) if !defs.contains(&l.as_ref())))) << 4;
    defs.sort_unstable();
    defs.dedup();
    l |= u64::from(defs.len() < k) << 5;
    Out::Pass(l)
}

// ---- C23 ----

fn test_html(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let ev = jd::events(src);
    let ps = match htmlmodel::pieces(&ev) {
        Ok(p) => p,
        Err(e) => return fail(e),
    };
    let got = html_of(&ev, src.len(), &Mode::Minified);
    let want = htmlmodel::text(&ps, &Mode::Minified);
    if got != want {
        return fail(first_diff(&got, &want));
    }
    let got = html_of(&ev, src.len(), &Mode::Default);
    let want = htmlmodel::text(&ps, &Mode::Default);
    let squeeze = |s: &str| -> String { s.split_whitespace().collect::<Vec<_>>().concat() };
    if got != want && squeeze(&got) != squeeze(&want) {
        return fail(first_diff(&got, &want));
    }
    let opens = ps.iter().filter(|p| matches!(p, P::Open(..) | P::Heading(..))).count();
    let mut l = u64::from(opens >= 3);
    l |= u64::from(ps.iter().any(|p| matches!(p, P::Raw(_)))) << 1;
    l |= u64::from(ps.iter().any(|p| matches!(p, P::Open("img", ..)))) << 2;
    l |= u64::from(ev.iter().any(|e| matches!(e.0, E::FootnoteReference(_)))) << 3;
    l |= u64::from(ev.iter().any(|e| matches!(e.0, E::Start(C::List { tight: true, .. }, _)))) << 4;
    l |= u64::from(ev.iter().any(|e| matches!(&e.0, E::Start(_, a) if !a.is_empty()))) << 5;
    Out::Pass(l)
}

// ---- C24 ----

fn gen_hostile(r: &mut Rng, g: &Guide) -> Case {
    let mut s = match r.n(3) {
        0 => doc(r, g, Focus::Inline(HOSTILE), &[HOSTILE, LINK, ATTR, WORD, WS, VERB, FOOT, RAW]),
        1 => any_doc(r, g),
        _ => {
            // templates with a hole for each kind of place
            let h = |r: &mut Rng| -> String {
                let mut s = String::new();
                for _ in 0..r.r(1, 4) {
                    s.push_str(r.pick(HOSTILE));
                    if r.one(2) {
                        s.push_str(r.pick(WORD));
                    }
                }
                s
            };
            let mut s = String::new();
            for _ in 0..r.r(1, 3) {
                let x = h(r);
                s += &match r.n(16) {
                    0 => format!("[t]({x})"),
                    1 => format!("![{x}](u)"),
                    2 => format!("![t]({x})"),
                    3 => format!("<http:{}>", x.replace(['<', '>'], "")),
                    4 => format!("<a@{}>", x.replace(['<', '>'], "")),
                    5 => format!("w{{k=\"{}\"}}", x.replace('"', "\\\"")),
                    6 => format!("`{x}`"),
                    7 => format!("$`{x}`"),
                    8 => format!("\n\n``` {x}\n{x}\n```\n\n"),
                    9 => format!("\n\n[l]: {x}\n\n[l][]\n\n"),
                    10 => format!("\n\n{{k=\"{}\" .{}}}\n# {x}\n\n[{x}][]\n", x.replace('"', "\\\""), "c"),
                    11 => format!("[^{x}]\n\n[^{x}]: {x}\n\n"),
                    12 => format!("![`{x}`{{=html}}](u)"),
                    13 => format!("\n\n|{x}|\n^ {x}\n\n"),
                    14 => format!("\n\n: {x}\n\n  {x}\n\n"),
                    _ => x,
                };
            }
            s
        }
    };
    if r.n(4) > 0 {
        s = s.replace("=html", "=tex");
    }
    if r.one(4) {
        let o = s.clone();
        s = mutate(r, &s, &o, &[HOSTILE, ATTR, LINK]);
    }
    Case::doc(s)
}

fn test_escaping(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let ev = jd::events(src);
    let ps = match htmlmodel::pieces(&ev) {
        Ok(p) => p,
        Err(e) => return fail(e),
    };
    let html = html_of(&ev, src.len(), &Mode::Minified);
    let special = |s: &str| s.contains(['<', '>', '&']);
    let mut l = 0;
    for p in &ps {
        match p {
            P::Text(s) if special(s) => l |= 1 | 2,
            P::Open(n, a, _) => {
                for (k, v) in a {
                    if special(v) || v.contains('"') {
                        l |= 1 | if *n == "img" && k == "alt" { 8 } else { 4 };
                    }
                }
            }
            P::Raw(_) => l |= 16,
            _ => {}
        }
    }
    match tokens(&ps) {
        Some(want) => {
            let got = match tokenize(&html) {
                Ok(t) => t,
                Err(e) => return fail(format!("{e}\n  HTML: {html:?}")),
            };
            if let Some(m) = diff_tokens(&got, &want) {
                return fail(format!("{m}\n  HTML: {html:?}"));
            }
        }
        None => {
            let want = htmlmodel::text(&ps, &Mode::Minified);
            if html != want {
                return fail(first_diff(&html, &want));
            }
        }
    }
    Out::Pass(l)
}

// ---- C25 ----

const UNITS: &[&str] = &["\t", "  ", "    ", "\u{1}", "..", "\u{1}\u{2}", "é"];

fn gen_modes(r: &mut Rng, g: &Guide) -> Case {
    Case {
        t: vec![any_doc(r, g), (*r.pick(UNITS)).to_string()],
        n: vec![if r.one(2) { 0 } else { r.r(1, 5) as u64 }],
    }
}

fn test_modes(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let unit = c.t.get(1).map_or("\t", String::as_str);
    let level = c.n.first().copied().unwrap_or(0) as usize;
    let ev = jd::events(src);
    let ps = match htmlmodel::pieces(&ev) {
        Ok(p) => p,
        Err(e) => return fail(e),
    };
    let get = |m: &Mode| html_of(&ev, src.len(), m);
    let min = get(&Mode::Minified);
    let def = get(&Mode::Default);
    let ind_mode = Mode::Indented(unit.to_string(), level);
    let ind = get(&ind_mode);
    let squeeze = |s: &str| s.replace('\n', "");
    let want_min = htmlmodel::text(&ps, &Mode::Minified);
    // what is in the output, apart from its layout, is not the question here
    let content_ok = squeeze(&min) == squeeze(&want_min);
    if content_ok {
        for (got, mode) in [(&min, Mode::Minified), (&def, Mode::Default), (&ind, ind_mode)] {
            let want = htmlmodel::text(&ps, &mode);
            if *got != want {
                return fail(format!("{mode:?}: {}", first_diff(got, &want)));
            }
        }
    }
    // indentation of level 0 with the empty string is the default
    if get(&Mode::Indented(String::new(), level)) != def {
        return fail("empty indentation string differs from default mode");
    }
    // one mark per level can be taken out again
    if !src.contains('\u{3}') {
        let marked = get(&Mode::Indented("\u{3}".into(), level));
        if marked.replace('\u{3}', "") != def {
            return fail(format!(
                "indented without indentation: {}",
                first_diff(&marked.replace('\u{3}', ""), &def)
            ));
        }
        let base = get(&Mode::Indented("\u{3}".into(), 0));
        // a higher level adds to each line that starts with a break of the renderer's own
        let lines = |s: &str| -> Vec<(usize, String)> {
            s.split('\n')
                .map(|l| {
                    let t = l.trim_start_matches('\u{3}');
                    (l.len() - t.len(), t.to_string())
                })
                .collect()
        };
        for ((n, x), (m, y)) in lines(&marked).iter().zip(lines(&base)) {
            let within = *n == 0 && m == 0;
            if *x != y || !(within || *n == m + level) {
                return fail(format!("line {x:?} indented by {n} at level {level}, by {m} at level 0"));
            }
        }
        if marked.matches('\u{3}').count() > 0 && marked.split('\n').any(|l| l.trim_start_matches('\u{3}').contains('\u{3}')) {
            return fail("indentation within a line");
        }
    }
    let depth = ps
        .iter()
        .map(|p| match p {
            P::Break(d) => *d,
            _ => 0,
        })
        .max()
        .unwrap_or(0);
    let mut l = u64::from(depth >= 2);
    l |= u64::from(level > 0) << 1;
    l |= u64::from(ps.iter().any(|p| matches!(p, P::Open("input", ..)))) << 2;
    l |= u64::from(ps.iter().any(|p| matches!(p, P::Soft(_)))) << 3;
    l |= u64::from(ps.iter().any(|p| matches!(p, P::Open("pre", ..)))) << 4;
    Out::Pass(l)
}

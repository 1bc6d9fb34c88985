//! C21, C22: wrapping in containers and joining documents, the implementation against itself.
use super::*;
use crate::jd::Ev;
use jotdown::Container as C;
use jotdown::Event as E;
use jotdown::LinkType;
use jotdown::SpanLinkType;
use std::ops::Range;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C21",
            rule: "any document wrapped in 1 to 3 containers (block quote, list item, footnote, div, description) compared with the document alone, with ranges mapped; non-trivial: at least 4 events of content",
            labels: &["quote", "list item", "footnote", "div", "description", "several wrappers"],
            gen: gen_wrap,
            test: test_wrap,
            relevant: always,
            quick: 600_000,
        },
        Prop {
            id: "C22",
            rule: "two documents joined by blank lines compared with each alone (with whitespace, or with CR LF in all the document in some cases), and blank lines added at the start, the end and where there are some; non-trivial: both have content",
            labels: &["joined", "blank lines at start and end", "blank lines repeated"],
            gen: gen_join,
            test: test_join,
            relevant: always,
            quick: 700_000,
        },
    ]
}

/// Without sections: their attributes and start belong to the heading then.
fn flatten<'s>(ev: &[Ev<'s>]) -> Vec<Ev<'s>> {
    let mut out: Vec<Ev<'s>> = Vec::new();
    let mut pending: Option<(Attributes<'s>, Range<usize>)> = None;
    for (e, r) in ev {
        match e {
            E::Start(C::Section { .. }, a) => pending = Some((a.clone(), r.clone())),
            E::End(C::Section { .. }) => {}
            E::Start(C::Heading { level, id, .. }, a) => {
                let (a, r) = match pending.take() {
                    Some((s, x)) if a.is_empty() => (s, x.start..r.end),
                    Some((s, x)) => (
                        s.into_iter().chain(a.clone()).collect(),
                        x.start..r.end,
                    ),
                    None => (a.clone(), r.clone()),
                };
                out.push((
                    E::Start(
                        C::Heading {
                            level: *level,
                            has_section: false,
                            id: id.clone(),
                        },
                        a,
                    ),
                    r,
                ));
            }
            E::End(C::Heading { level, id, .. }) => out.push((
                E::End(C::Heading {
                    level: *level,
                    has_section: false,
                    id: id.clone(),
                }),
                r.clone(),
            )),
            E::Str(s) => {
                // text over several lines is in one event only if there is nothing between them
                if let Some((E::Str(t), x)) = out.last_mut() {
                    *t = format!("{t}{s}").into();
                    x.end = r.end;
                } else {
                    out.push((e.clone(), r.clone()));
                }
            }
            e => out.push((e.clone(), r.clone())),
        }
    }
    out
}

/// Positions in a text after lines have got prefixes.
struct Shift {
    /// For each byte of the original text, where it is now.
    at: Vec<usize>,
    end: usize,
}

impl Shift {
    fn range(&self, r: &Range<usize>) -> Range<usize> {
        let start = self.at.get(r.start).copied().unwrap_or(self.end);
        if r.is_empty() {
            start..start
        } else {
            start..self.at[r.end - 1] + 1
        }
    }

    /// An empty range at the start of a line may also be at the end of the one before.
    fn same(&self, r: &Range<usize>, actual: &Range<usize>) -> bool {
        let m = self.range(r);
        m == *actual
            || r.is_empty()
                && actual.is_empty()
                && (r.start > 0 && actual.start == self.at[r.start - 1] + 1
                    || actual.start >= self.at.get(r.start.wrapping_sub(1)).map_or(0, |a| a + 1)
                        && (actual.start <= m.start || r.start >= self.at.len()))
    }
}

// ---- C21 ----

const WRAPPERS: &[char] = &['>', '-', '1', 'f', 'd', ':'];

fn gen_wrap(r: &mut Rng, g: &Guide) -> Case {
    let n = if r.one(3) { r.r(2, 3) } else { 1 };
    let w: String = (0..n).map(|_| *r.pick(WRAPPERS)).collect();
    Case {
        t: vec![any_doc(r, g), w],
        n: vec![r.n(2) as u64, if r.one(2) { r.n(4096) as u64 } else { 0 }],
    }
}

fn longest_run(s: &str, c: char) -> usize {
    let mut max = 0;
    let mut n = 0;
    for x in s.chars() {
        n = if x == c { n + 1 } else { 0 };
        max = max.max(n);
    }
    max
}

struct Wrapped {
    text: String,
    shift: Shift,
    /// Events before and after the content.
    before: usize,
    after: usize,
}

fn wrap(src: &str, wrappers: &str, style: u64, markers: u64) -> Option<Wrapped> {
    // each line with its prefix; prefixes of inner wrappers come last
    let lines: Vec<&str> = src.split_inclusive('\n').collect();
    let mut pre: Vec<String> = vec![String::new(); lines.len()];
    // whole lines before and after
    let mut head: Vec<String> = Vec::new();
    let mut tail: Vec<String> = Vec::new();
    let mut fence = longest_run(src, ':').max(2);
    let (mut before, mut after) = (0, 0);
    let blank = |l: &str| matches!(l, "" | "\n");
    for (i, w) in wrappers.chars().enumerate().collect::<Vec<_>>().into_iter().rev() {
        // other ways to write the marker
        let v = (markers >> (4 * i.min(15)) & 15) as usize;
        let (first, rest, ev) = match w {
            '>' => match v {
                5 | 7 | 9 => (">\t", ">\t", 1),
                6 if i == 0 => (" > ", "  > ", 1),
                _ => ("> ", "> ", 1),
            },
            '-' => (["- ", "+ ", "* ", "- [ ] ", "* [x] ", "+ [X] ", "- ", "*   "][v % 8], "      ", 2),
            '1' => (
                [
                    "1. ", "12. ", "(3) ", "b) ", "iv. ", "0) ", "(Q) ", "99. ", "(xviii) ", "1234567890. ", "MMXXVI) ",
                    "(9999999999999999999) ", "a. ", "(i) ", "C. ", "10)  ",
                ][v],
                "                          ",
                2,
            ),
            'f' => (
                match v {
                    8 => "[^z]: ",
                    9 => "[^]: ",
                    10 | 11 => "[^zz of many words]: ",
                    12 | 13 => "[^zzzzzzzzzzzzz]: ",
                    14 => "[^z*`]: ",
                    _ => "[^zz]: ",
                },
                "                          ",
                1,
            ),
            ':' => ("  ", "  ", 2),
            'd' => {
                fence += 1;
                let f = ":".repeat(fence);
                head.insert(0, format!("{f}\n"));
                tail.push(format!("{f}\n"));
                before += 1;
                after += 1;
                continue;
            }
            _ => return None,
        };
        let rest = match w {
            '-' => &rest[..first.len().min(6)],
            '1' | 'f' => &rest[..first.len()],
            _ => rest,
        };
        before += ev;
        after += ev;
        if w == ':' {
            // term with its text, and blank line
            before += 4;
        }
        let mut is_first = true;
        let mut apply = |l: &str, p: &mut String| {
            let full = format!("{p}{l}");
            let add = if is_first {
                first
            } else if blank(&full) {
                if w == '>' {
                    if style == 0 {
                        ">"
                    } else {
                        rest
                    }
                } else if style == 0 {
                    ""
                } else {
                    rest
                }
            } else {
                rest
            };
            is_first = false;
            p.insert_str(0, add);
        };
        for h in &mut head {
            let mut p = String::new();
            apply(h, &mut p);
            h.insert_str(0, &p);
        }
        for (l, p) in lines.iter().zip(&mut pre) {
            apply(l, p);
        }
        for t in &mut tail {
            let mut p = String::new();
            apply(t, &mut p);
            t.insert_str(0, &p);
        }
        if w == ':' {
            head.insert(0, "\n".into());
            head.insert(0, ": t\n".into());
        }
    }
    let mut text = head.concat();
    let mut at = Vec::with_capacity(src.len());
    for (l, p) in lines.iter().zip(&pre) {
        text.push_str(p);
        for i in 0..l.len() {
            at.push(text.len() + i);
        }
        text.push_str(l);
    }
    let end = text.len();
    if !tail.is_empty() && !text.ends_with('\n') {
        text.push('\n');
    }
    text.push_str(&tail.concat());
    Some(Wrapped {
        text,
        shift: Shift { at, end },
        before,
        after,
    })
}

/// A known finding: a line that looks like a code fence, within a paragraph, hides the end of a div.
pub fn known_fence() -> i32 {
    let ev = jd::events(":::\na\n```\n:::\n\nb\n");
    let end = ev.iter().position(|e| matches!(e.0, E::End(C::Div { .. })));
    let b = ev.iter().position(|e| matches!(&e.0, E::Str(s) if s == "b"));
    if end > b {
        println!("KNOWN-FINDING: property=C21 the closing fence of the div in \":::\\na\\n```\\n:::\\n\\nb\\n\" is ignored");
    } else {
        println!("known finding of C21 no longer fails");
    }
    0
}

/// Whether a line starts with a code fence but is not part of a code block directly in the document.
///
/// Known finding: a div ignores its closing fence then.
fn hides_fence(src: &str, ev: &[Ev]) -> bool {
    let mut code = Vec::new();
    let mut depth = 0;
    for (e, r) in ev {
        match e {
            E::Start(C::CodeBlock { .. } | C::RawBlock { .. }, _) if depth == 1 => code.push(r.clone()),
            E::End(C::CodeBlock { .. } | C::RawBlock { .. }) if depth == 2 => code.last_mut().unwrap().end = r.end,
            _ => {}
        }
        match e {
            E::Start(..) => depth += 1,
            E::End(..) => depth -= 1,
            _ => {}
        }
    }
    let mut at = 0;
    src.split_inclusive('\n').any(|l| {
        let start = at + l.len() - l.trim_ascii_start().len();
        at += l.len();
        (l.trim_ascii_start().starts_with("```") || l.trim_ascii_start().starts_with("~~~"))
            && !code.iter().any(|r| r.contains(&start))
    })
}

/// Whether a block quote holds something that depends on indentation and a line without marker.
///
/// Such a line keeps what is left of the indentation of the container around the quote.
fn lazy_in_quote(src: &str, ev: &[Ev]) -> bool {
    ev.iter().enumerate().any(|(i, (e, r))| {
        if !matches!(e, E::Start(C::Blockquote, _)) {
            return false;
        }
        let mut depth = 0;
        let mut sensitive = false;
        for (e, x) in &ev[i..] {
            match e {
                E::Start(c, _) => {
                    depth += 1;
                    sensitive |= matches!(
                        c,
                        C::List { .. } | C::DescriptionList | C::Footnote { .. } | C::LinkDefinition { .. }
                    );
                }
                E::End(_) => depth -= 1,
                _ => {}
            }
            if depth == 0 {
                return sensitive
                    && src[r.start..x.end.max(r.start)]
                        .lines()
                        .any(|l| !(l.trim_ascii_start().starts_with("> ") || l.trim_ascii() == ">"));
            }
        }
        false
    })
}

fn test_wrap(c: &Case) -> Out {
    let wrappers = c.t.get(1).map_or("", String::as_str);
    let src = &if wrappers.contains('d') && !c.t[0].ends_with('\n') {
        format!("{}\n", c.t[0])
    } else {
        c.t[0].clone()
    };
    let Some(first) = src.split('\n').next() else {
        return Out::Pass(0);
    };
    if wrappers.is_empty() || src.trim_ascii().is_empty() {
        return Out::Pass(0);
    }
    // the indentation of what follows a marker on the same line is part of the marker
    if first.starts_with(|c: char| c.is_whitespace()) || first.trim_ascii().is_empty() || src.contains(['\r', '\t', '\u{c}', '\u{b}']) {
        return Out::Pass(0);
    }
    // the label of the footnote and task markers must be free
    if src.contains("zz") || wrappers.contains('-') && first.starts_with('[') {
        return Out::Pass(0);
    }
    // as above, hidden by the marker of a container within the div
    if wrappers.contains('d') && wrappers.contains(['f', '-', '1']) && first.starts_with(['`', '~']) {
        return Out::Pass(0);
    }
    // a list marker may become part of a thematic break
    if wrappers.contains('-') && first.chars().all(|c| matches!(c, '-' | '*' | ' ')) {
        return Out::Pass(0);
    }
    let Some(w) = wrap(
        src,
        wrappers,
        c.n.first().copied().unwrap_or(0),
        c.n.get(1).copied().unwrap_or(0),
    ) else {
        return Out::Pass(0);
    };
    let alone = flatten(&jd::events(src));
    let unclosed = |e: &Ev| {
        e.1.is_empty() && matches!(e.0, E::End(C::Div { .. } | C::CodeBlock { .. } | C::RawBlock { .. }))
    };
    if wrappers.contains('d') && (alone.iter().any(unclosed) || hides_fence(src, &alone)) {
        return Out::Pass(0);
    }
    let alone = &alone[1..alone.len() - 1];
    if wrappers.contains(['f', '-', '1', ':']) && lazy_in_quote(src, alone) {
        return Out::Pass(0);
    }
    let ev = flatten(&jd::events(&w.text));
    let show = |m: String| fail(format!("{m}\n  wrapped: {:?}", w.text));
    if ev.len() < 2 + w.before + w.after {
        return show("too few events".into());
    }
    let all = &ev[1..ev.len() - 1];
    // the content starts after the wrappers
    let inner = &all[w.before.min(all.len())..];
    let mut depth = 0;
    for (i, (e, r)) in alone.iter().enumerate() {
        let Some((x, y)) = inner.get(i) else {
            return show(format!("content event {i} {e:?} is missing"));
        };
        match e {
            E::Start(..) => depth += 1,
            E::End(..) => depth -= 1,
            _ => {}
        }
        if x != e {
            // what is left of the indentation of a line without prefix of its own container
            let trim = |s: &str| -> Vec<String> { s.lines().map(|l| l.trim_ascii_start().to_string()).collect() };
            let code = i > 0 && matches!(&alone[i - 1].0, E::Start(C::CodeBlock { .. } | C::RawBlock { .. }, _));
            match (x, e) {
                (E::Str(a), E::Str(b)) if code && depth > 1 && trim(a) == trim(b) => continue,
                _ => return show(format!("content event {i} is {x:?}, alone {e:?}")),
            }
        }
        // indentation may be part of a closing fence
        let m = w.shift.range(r);
        let fence = matches!(e, E::End(_))
            && m.end == y.end
            && y.start < m.start
            && w.text[y.start..m.start].bytes().all(|c| c == b' ');
        // with attributes before it, a block starts after the prefix of its own line
        let attrs = matches!(e, E::Start(c, _) if is_block(c))
            && m.start == y.start
            && y.end == w.shift.range(&(r.end..r.end)).start;
        if !w.shift.same(r, y) && !fence && !attrs {
            return show(format!(
                "content event {i} {e:?} has range {y:?}, expected {:?}",
                w.shift.range(r)
            ));
        }
    }
    for (e, _) in &inner[alone.len()..] {
        if !matches!(e, E::End(c) if is_block_container(c)) {
            return show(format!("unexpected event {e:?} after the content"));
        }
    }
    let mut l = u64::from(alone.len() >= 4);
    for (i, x) in ['>', '-', 'f', 'd', ':'].iter().enumerate() {
        l |= u64::from(wrappers.contains(*x)) << (i + 1);
    }
    l |= u64::from(wrappers.len() > 1) << 6;
    Out::Pass(l)
}

// ---- C22 ----

fn gen_join(r: &mut Rng, g: &Guide) -> Case {
    let (mut a, mut b) = (any_doc(r, g), any_doc(r, g));
    if r.one(8) {
        // lines that end as on other systems
        a = crlf(&a);
        b = crlf(&b);
    }
    Case {
        t: vec![a, b],
        n: vec![
            r.n(3) as u64,
            r.n(3) as u64,
            if r.one(2) { r.n(4096) as u64 } else { 0 },
        ],
    }
}

fn crlf(s: &str) -> String {
    s.replace("\r\n", "\n").replace('\n', "\r\n")
}

/// Blank lines, which may have whitespace.
fn blanks(n: usize, style: u64) -> String {
    const WS: &[&str] = &["", "", "", "", "\r", " ", "\t", "\u{c}", "  ", " \t ", "\r", " \r", "     ", "", "\t\t", "\r"];
    (0..n)
        .map(|i| format!("{}\n", WS[(style >> (4 * i.min(15)) & 15) as usize]))
        .collect()
}

/// Without what depends on the rest of the document.
fn local<'s>(ev: &[Ev<'s>]) -> Vec<Ev<'s>> {
    let container = |c: &C<'s>| match c {
        C::Heading { level, .. } => C::Heading {
            level: *level,
            has_section: false,
            id: "".into(),
        },
        C::Link(_, LinkType::Span(SpanLinkType::Reference | SpanLinkType::Unresolved)) => {
            C::Link("".into(), LinkType::Span(SpanLinkType::Unresolved))
        }
        C::Image(_, SpanLinkType::Reference | SpanLinkType::Unresolved) => {
            C::Image("".into(), SpanLinkType::Unresolved)
        }
        c => c.clone(),
    };
    flatten(ev)
        .into_iter()
        .filter(|(e, _)| !matches!(e, E::Blankline))
        .map(|(e, r)| {
            let e = match e {
                E::Start(c, a) => {
                    let n = container(&c);
                    let a = if matches!(
                        n,
                        C::Link(_, LinkType::Span(SpanLinkType::Unresolved)) | C::Image(_, SpanLinkType::Unresolved)
                    ) {
                        Attributes::new()
                    } else {
                        a
                    };
                    E::Start(n, a)
                }
                E::End(c) => E::End(container(&c)),
                e => e,
            };
            (e, r)
        })
        .collect()
}

fn untight<'s>(e: &Event<'s>) -> Event<'s> {
    match e {
        E::Start(C::List { kind, .. }, a) => E::Start(
            C::List {
                kind: *kind,
                tight: false,
            },
            a.clone(),
        ),
        E::End(C::List { kind, .. }) => E::End(C::List {
            kind: *kind,
            tight: false,
        }),
        e => e.clone(),
    }
}

/// Whether nothing that follows after a blank line can become part of the document's last block.
fn closed(ev: &[Ev], next: &str) -> bool {
    let mut depth = 0usize;
    // last block directly in the document
    let mut last = None;
    let mut open = false;
    for (e, r) in ev {
        match e {
            E::Start(C::Section { .. } | C::Document, _) | E::End(C::Section { .. } | C::Document) => {}
            E::Start(c, _) => {
                if depth == 0 {
                    last = Some(c);
                }
                depth += 1;
            }
            E::End(c) => {
                depth -= 1;
                if matches!(c, C::Div { .. } | C::CodeBlock { .. } | C::RawBlock { .. }) && r.is_empty() {
                    open = true;
                }
                if depth == 0 {
                    if open && !matches!(c, C::Blockquote) {
                        return false;
                    }
                    open = false;
                }
            }
            _ => {}
        }
    }
    let first = next.lines().find(|l| !l.trim_ascii().is_empty()).unwrap_or("");
    match last {
        Some(C::Table) => !first.trim_ascii_start().starts_with('^'),
        Some(C::List { .. } | C::DescriptionList | C::Footnote { .. }) => {
            // only what is clearly not an item and not indented
            first.starts_with(['#', '`', '|', '>', '~'])
        }
        _ => true,
    }
}

fn test_join(c: &Case) -> Out {
    let (a, b) = (c.t[0].as_str(), c.t.get(1).map_or("", String::as_str));
    let n = c.n.get(1).copied().unwrap_or(0) as usize + 1;
    let style = c.n.get(2).copied().unwrap_or(0);
    let a = &if a.is_empty() || a.ends_with('\n') {
        a.to_string()
    } else {
        format!("{a}\n")
    };
    let ea = jd::events(a);
    match c.n.first() {
        Some(0) => {
            // blank lines at the start and the end
            let pre = blanks(n, style);
            let post = blanks(1, style >> 4);
            let n = pre.len();
            let src = format!("{pre}{a}{post}");
            let eb = jd::events(&src);
            if !closed(&ea, "") {
                return Out::Pass(0);
            }
            let (x, y) = (flatten(&ea), flatten(&eb));
            let x: Vec<_> = x.iter().filter(|e| e.0 != E::Blankline).collect();
            let y: Vec<_> = y.iter().filter(|e| e.0 != E::Blankline).collect();
            if x.len() != y.len() {
                return fail(format!("{} events, {} with blank lines around", x.len(), y.len()));
            }
            for (p, q) in x.iter().zip(&y) {
                if p.0 != q.0 {
                    return fail(format!("{:?}, with blank lines around {:?}", p.0, q.0));
                }
                if (p.1.start + n..p.1.end + n) != q.1 && !matches!(p.0, E::End(_) | E::Start(C::Document, _)) {
                    return fail(format!("{:?} at {:?}, with blank lines around at {:?}", p.0, p.1, q.1));
                }
            }
            return Out::Pass(u64::from(x.len() > 4) | 4);
        }
        Some(1) => {
            // more of a blank line
            let blanks: Vec<&Range<usize>> = ea
                .iter()
                .filter(|e| e.0 == E::Blankline && a[e.1.clone()].ends_with('\n'))
                .map(|e| &e.1)
                .collect();
            if blanks.is_empty() {
                return Out::Pass(0);
            }
            let at = blanks[(b.len() + n) % blanks.len()].clone();
            // the whole line, with the prefixes of containers
            let start = a[..at.start].rfind('\n').map_or(0, |i| i + 1);
            let line = &a[start..at.end];
            if !line.trim_matches(['>', ' ', '\n', '\r']).is_empty() {
                return Out::Pass(0);
            }
            let src = format!("{}{}{}", &a[..at.end], line.repeat(n), &a[at.end..]);
            let eb = jd::events(&src);
            let (x, y) = (flatten(&ea), flatten(&eb));
            let x: Vec<_> = x.iter().filter(|e| e.0 != E::Blankline).collect();
            let y: Vec<_> = y.iter().filter(|e| e.0 != E::Blankline).collect();
            if x.len() != y.len() {
                return fail(format!("{} events, {} with blank line at {start} repeated", x.len(), y.len()));
            }
            for (p, q) in x.iter().zip(&y) {
                if untight(&p.0) != untight(&q.0) {
                    return fail(format!("{:?}, with blank line at {start} repeated {:?}", p.0, q.0));
                }
            }
            return Out::Pass(u64::from(x.len() > 4) | 8);
        }
        _ => {}
    }
    if a.trim_ascii().is_empty() || b.trim_ascii().is_empty() || !closed(&ea, b) {
        return Out::Pass(0);
    }
    // an indented start means something else after a list or the like only
    let gap = blanks(n, style);
    let src = format!("{a}{gap}{b}");
    let off = a.len() + gap.len();
    let first_b = off + b.len() - b.trim_ascii_start().len();
    let (la, lb, lj) = (local(&ea), local(&jd::events(b)), local(&jd::events(&src)));
    let k = la.len() - 1;
    if lj.len() != la.len() + lb.len() - 2 {
        return fail(format!(
            "joined: {} events, alone {} and {}",
            lj.len() - 2,
            la.len() - 2,
            lb.len() - 2
        ));
    }
    for (i, (x, y)) in lj.iter().zip(la[..k].iter().cloned().chain(
        lb[1..].iter().map(|(e, r)| (e.clone(), r.start + off..r.end + off)),
    )).enumerate() {
        if x.0 != y.0 {
            return fail(format!("joined: event {i} {:?}, alone {:?}", x.0, y.0));
        }
        // an empty range may lie beyond the blank lines
        let later = i < k && x.1.is_empty() && y.1.is_empty() && (y.1.start..=first_b).contains(&x.1.start);
        if x.1 != y.1 && !matches!(x.0, E::End(_)) && !later {
            return fail(format!("joined: event {i} {:?} at {:?}, expected {:?}", x.0, x.1, y.1));
        }
    }
    Out::Pass(1 | 2)
}

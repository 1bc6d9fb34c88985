//! C07-C12, C15-C19: each kind of construct against the reference parser and the HTML model, and by construction.
use super::*;
use super::html::first_diff;
use crate::htmlmodel;
use crate::gen::*;
use crate::jd::Ev;
use jotdown::Container;
use jotdown::Container as C;
use jotdown::Event as E;
use jotdown::SpanLinkType;

macro_rules! model_prop {
    ($id:expr, $rule:expr, $labels:expr, $focus:expr, $pools:expr, $attrs:expr, $about:expr, $marks:expr, $label:expr, $quick:expr) => {
        Prop {
            id: $id,
            rule: $rule,
            labels: $labels,
            gen: |r, g| Case::doc(doc(r, g, $focus, $pools)),
            test: |c| test(&c.t[0], $attrs, $about, $label),
            relevant: |c| relevant(&c.t[0], $attrs, $about, $marks),
            quick: $quick,
        }
    };
}

type About = fn(&Event) -> bool;
type Label = fn(&[Ev]) -> u64;

/// All events equal those of the reference parser.
fn test(src: &str, attrs: bool, about: About, label: Label) -> Out {
    let (a, d) = against_model(src, attrs);
    match d {
        Some(d) => Out::Fail(d.msg),
        None => match shown(&a, src.len()) {
            Some(d) => fail(d),
            None => Out::Pass(u64::from(a.iter().any(|e| about(&e.0))) | label(&a) << 1),
        },
    }
}

/// The events are rendered as the rules say.
fn shown(ev: &[Ev], len: usize) -> Option<String> {
    let mode = jd::Mode::Minified;
    let got = jd::render(len, ev.iter().map(|e| e.0.clone()), &mode);
    match htmlmodel::pieces(ev) {
        Ok(ps) => {
            let want = htmlmodel::text(&ps, &mode);
            (got != want).then(|| format!("HTML differs: {}", first_diff(&got, &want)))
        }
        Err(e) => Some(e),
    }
}

/// The events that differ are about the construct, or the minimal source cannot do without it,
/// or it is rendered wrongly.
fn relevant(src: &str, attrs: bool, about: About, marks: &[&str]) -> bool {
    match against_model(src, attrs) {
        (_, Some(d)) => {
            marks.iter().any(|m| src.contains(m)) || d.a.iter().chain(&d.r).any(about)
        }
        (a, None) => a.iter().any(|e| about(&e.0)) && shown(&a, src.len()).is_some(),
    }
}

fn has(a: &[Ev], f: fn(&Event) -> bool) -> u64 {
    u64::from(a.iter().any(|e| f(&e.0)))
}

fn count(a: &[Ev], f: fn(&Event) -> bool) -> usize {
    a.iter().filter(|e| f(&e.0)).count()
}

fn container<'e, 's>(e: &'e Event<'s>) -> Option<&'e Container<'s>> {
    match e {
        E::Start(c, _) | E::End(c) => Some(c),
        _ => None,
    }
}

fn text_with(e: &Event, pat: &[char]) -> bool {
    matches!(e, E::Str(s) if s.contains(pat))
}

// which events a property is about

fn escape(e: &Event) -> bool {
    matches!(e, E::Escape | E::NonBreakingSpace | E::Hardbreak) || text_with(e, &['\\'])
}

fn verbatim(e: &Event) -> bool {
    matches!(
        container(e),
        Some(C::Verbatim | C::Math { .. } | C::RawInline { .. })
    ) || text_with(e, &['`', '$'])
}

fn code(e: &Event) -> bool {
    matches!(container(e), Some(C::CodeBlock { .. } | C::RawBlock { .. }))
        || matches!(e, E::Str(s) if s.contains("```") || s.contains("~~~"))
}

fn delimited(e: &Event) -> bool {
    matches!(
        container(e),
        Some(
            C::Emphasis
                | C::Strong
                | C::Superscript
                | C::Subscript
                | C::Mark
                | C::Insert
                | C::Delete
        )
    ) || text_with(e, &['*', '_', '^', '~'])
        || ["=}", "+}", "-}", "{=", "{+", "{-"]
            .iter()
            .any(|t| matches!(e, E::Str(s) if s.contains(t)))
}

fn smart(e: &Event) -> bool {
    matches!(
        e,
        E::LeftSingleQuote
            | E::RightSingleQuote
            | E::LeftDoubleQuote
            | E::RightDoubleQuote
            | E::Ellipsis
            | E::EnDash
            | E::EmDash
    ) || text_with(e, &['\'', '"', '-', '.'])
}

fn link(e: &Event) -> bool {
    matches!(
        container(e),
        Some(C::Link(..) | C::Image(..) | C::LinkDefinition { .. })
    ) || text_with(e, &['[', ']', '<', '>'])
}

fn attribute(e: &Event) -> bool {
    matches!(e, E::Attributes(_))
        || matches!(e, E::Start(_, a) | E::ThematicBreak(a) if !a.is_empty())
        || matches!(container(e), Some(C::Span))
        || text_with(e, &['{', '}'])
}

fn heading(e: &Event) -> bool {
    matches!(container(e), Some(C::Heading { .. } | C::Section { .. })) || text_with(e, &['#'])
}

fn list(e: &Event) -> bool {
    matches!(
        container(e),
        Some(C::List { .. } | C::ListItem | C::TaskListItem { .. })
    )
}

fn description(e: &Event) -> bool {
    matches!(
        container(e),
        Some(C::DescriptionList | C::DescriptionTerm | C::DescriptionDetails)
    )
}

fn table(e: &Event) -> bool {
    matches!(
        container(e),
        Some(C::Table | C::TableRow { .. } | C::TableCell { .. } | C::Caption)
    ) || text_with(e, &['|'])
}

fn atom(e: &Event) -> bool {
    matches!(
        e,
        E::Symbol(_) | E::Softbreak | E::Hardbreak | E::NonBreakingSpace | E::FootnoteReference(_)
    ) || matches!(
        container(e),
        Some(C::Span | C::Link(_, jotdown::LinkType::AutoLink | jotdown::LinkType::Email))
    ) || matches!(e, E::Str(s) if s.contains(':') || s.contains("[^") || s.contains("]{") || s.contains('<'))
}

fn starts(e: &Event, f: fn(&Container) -> bool) -> bool {
    matches!(e, E::Start(c, _) if f(c))
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "documents rich in backslashes against the reference parser and the HTML model, and (1 in 4) any text with all punctuation escaped must come back as one paragraph of it; non-trivial: has an escape, hard break or non-breaking space",
            labels: &["by construction", "hard break", "non-breaking space", "literal backslash"],
            gen: gen_escape,
            test: test_escape,
            relevant: |c| c.n[0] == 1 || relevant(&c.t[0], false, escape, &["\\"]),
            quick: 800_000,
        },
        Prop {
            id: "C08",
            rule: "documents rich in backticks against the reference parser and the HTML model, and (1 in 4) a text within backticks in random surroundings must come back; non-trivial: has verbatim, math or raw inline",
            labels: &["by construction", "math", "raw", "several lines"],
            gen: gen_verbatim,
            test: test_verbatim,
            relevant: |c| c.n[0] == 1 || relevant(&c.t[0], false, verbatim, &["`"]),
            quick: 800_000,
        },
        Prop {
            id: "C09",
            rule: "documents rich in code blocks against the reference parser and the HTML model, and (1 in 4) a text fenced in random containers must come back; non-trivial: has a code or raw block",
            labels: &["by construction", "raw", "language"],
            gen: gen_code,
            test: test_code,
            relevant: |c| c.n[0] == 1 || relevant(&c.t[0], false, code, &["```", "~~~"]),
            quick: 700_000,
        },
        model_prop!(
            "C10",
            "documents rich in inline delimiters against the reference parser and the HTML model; non-trivial: has a delimited container",
            &["nested", "marked with braces", "unmatched delimiter as text"],
            Focus::Inline(DELIM),
            &[DELIM, WS, WORD, LINK, VERB, SMART, ATTR, ESC, BLOCK],
            false,
            delimited,
            &["{=", "{+", "{-", "{*", "{_", "{^", "{~"],
            |a| (a.windows(2).any(|w| delimited(&w[0].0)
                && delimited(&w[1].0)
                && matches!((&w[0].0, &w[1].0), (E::Start(..), E::Start(..)))) as u64)
                | (a.iter().any(|e| e.1.len() == 2 && delimited(&e.0)) as u64) << 1
                | has(a, |e| text_with(e, &['*', '_', '^', '~'])) << 2,
            1_200_000
        ),
        Prop {
            id: "C11",
            rule: "documents rich in quotes, hyphens and periods against the reference parser and the HTML model, including ranges of smart punctuation; non-trivial: has smart punctuation",
            labels: &["quotes", "dashes", "ellipsis", "long run of hyphens"],
            gen: |r, g| {
                Case::doc(doc(
                    r,
                    g,
                    Focus::Inline(SMART),
                    &[SMART, WS, WORD, DELIM, LINK, ATTR, ESC, VERB, BLOCK],
                ))
            },
            test: test_smart,
            relevant: |c| match against_model(&c.t[0], false) {
                (_, Some(d)) => d.a.iter().chain(&d.r).any(smart),
                (a, None) => a.iter().any(|e| smart(&e.0)),
            },
            quick: 1_000_000,
        },
        model_prop!(
            "C12",
            "documents rich in links, references and definitions against the reference parser and the HTML model; non-trivial: has a link or image",
            &["reference", "unresolved", "image", "autolink", "definition"],
            Focus::Link,
            &[LINK, WS, WORD, DELIM, ATTR, VERB, ESC, BLOCK, MISC],
            true,
            link,
            &["]", "<"],
            |a| has(a, |e| matches!(
                container(e),
                Some(
                    C::Link(_, jotdown::LinkType::Span(SpanLinkType::Reference))
                        | C::Image(_, SpanLinkType::Reference)
                )
            )) | has(a, |e| matches!(
                container(e),
                Some(
                    C::Link(_, jotdown::LinkType::Span(SpanLinkType::Unresolved))
                        | C::Image(_, SpanLinkType::Unresolved)
                )
            )) << 1
                | has(a, |e| matches!(container(e), Some(C::Image(..)))) << 2
                | has(a, |e| matches!(
                    container(e),
                    Some(C::Link(
                        _,
                        jotdown::LinkType::AutoLink | jotdown::LinkType::Email
                    ))
                )) << 3
                | has(a, |e| matches!(container(e), Some(C::LinkDefinition { .. }))) << 4,
            900_000
        ),
        Prop {
            id: "C15",
            rule: "documents rich in attributes against the reference parser and the HTML model; non-trivial: has attributes",
            labels: &["on block", "on inline", "dangling", "several elements"],
            gen: |r, g| {
                Case::doc(doc(
                    r,
                    g,
                    Focus::Attr,
                    &[ATTR, WS, WORD, DELIM, BLOCK, LINK, VERB, TABLE, LIST, MISC, FOOT],
                ))
            },
            test: test_attach,
            relevant: |c| match against_model(&c.t[0], true) {
                (_, Some(d)) => c.t[0].contains('{') || d.a.iter().chain(&d.r).any(attribute),
                (a, None) => a.iter().any(|e| attribute(&e.0)),
            },
            quick: 900_000,
        },
        model_prop!(
            "C16",
            "documents rich in headings against the reference parser and the HTML model; non-trivial: has a heading",
            &["section in section", "heading without section", "several headings", "over 6 levels"],
            Focus::Head,
            &[BLOCK, WS, WORD, ATTR, LINK, DELIM, SMART, ESC, FOOT, MISC],
            false,
            heading,
            &["#"],
            |a| (a.windows(3).any(|w| starts(&w[0].0, |c| matches!(c, C::Section { .. }))
                || starts(&w[2].0, |c| matches!(c, C::Section { .. }))) as u64)
                | has(a, |e| starts(e, |c| matches!(c, C::Heading { has_section: false, .. }))) << 1
                | ((count(a, |e| starts(e, |c| matches!(c, C::Heading { .. }))) > 1) as u64) << 2
                | has(a, |e| starts(e, |c| matches!(c, C::Heading { level, .. } if *level > 6))) << 3,
            800_000
        ),
        Prop {
            id: "C17",
            rule: "documents rich in lists of all styles against the reference parser and the HTML model; conversion between bullets and characters; non-trivial: has a list",
            labels: &["ordered", "task", "loose", "several lists", "3 items or more"],
            gen: |r, g| Case::doc(doc(r, g, Focus::List, &[LIST, WS, WORD, BLOCK, DESC, ATTR, TABLE, FOOT])),
            test: |c| match bullets(&c.t[0]) {
                Some(e) => fail(e),
                None => test(&c.t[0], false, list, list_labels),
            },
            relevant: |c| bullets(&c.t[0]).is_some() || relevant(&c.t[0], false, list, &[]),
            quick: 600_000,
        },
        model_prop!(
            "C18",
            "documents rich in description lists against the reference parser and the HTML model; non-trivial: has a description list",
            &["several terms", "nested", "blocks in details"],
            Focus::Desc,
            &[DESC, WS, WORD, BLOCK, LIST, ATTR, TABLE, FOOT],
            true,
            description,
            &[],
            |a| ((count(a, |e| starts(e, |c| matches!(c, C::DescriptionTerm))) > 1) as u64)
                | ((count(a, |e| starts(e, |c| matches!(c, C::DescriptionList))) > 1) as u64) << 1
                | (a.windows(2).any(|w| starts(&w[0].0, |c| matches!(c, C::DescriptionDetails))
                    && !matches!(w[1].0, E::End(_))) as u64)
                    << 2,
            500_000
        ),
        model_prop!(
            "C19",
            "documents rich in tables against the reference parser and the HTML model; non-trivial: has a table",
            &["head", "alignment", "caption", "several rows", "3 columns or more"],
            Focus::Table,
            &[TABLE, WS, WORD, VERB, DELIM, ESC, BLOCK, ATTR, LINK],
            false,
            table,
            &["|"],
            |a| has(a, |e| starts(e, |c| matches!(c, C::TableRow { head: true })))
                | has(a, |e| starts(e, |c| matches!(c, C::TableCell { alignment, .. } if *alignment != jotdown::Alignment::Unspecified))) << 1
                | has(a, |e| starts(e, |c| matches!(c, C::Caption))) << 2
                | ((count(a, |e| starts(e, |c| matches!(c, C::TableRow { .. }))) > 1) as u64) << 3
                | ((count(a, |e| starts(e, |c| matches!(c, C::TableCell { .. }))) > 2) as u64) << 4,
            900_000
        ),
        Prop {
            id: "C28",
            rule: "any documents, mostly of blocks: the tree of blocks (kinds, payloads, blank lines, starts of ranges; no identifiers, attributes or inline content) against that of the reference parser; non-trivial: blocks nested or of 3 kinds",
            labels: &["block quote", "div", "thematic break", "list", "line without marker", "definition"],
            gen: |r, g| {
                Case::doc(if r.one(3) {
                    any_doc(r, g)
                } else {
                    let f = *r.pick(&[Focus::Any, Focus::Any, Focus::List, Focus::Div, Focus::Code, Focus::Head, Focus::Desc]);
                    doc(r, g, f, &[BLOCK, WS, WORD, LIST, DESC, TABLE, FOOT, MISC, DELIM])
                })
            },
            test: test_blocks,
            relevant: always,
            quick: 900_000,
        },
        model_prop!(
            "C29",
            "documents rich in symbols, breaks, footnote references, autolinks and spans against the reference parser and the HTML model; non-trivial: has one of them",
            &["symbol", "soft break", "hard break", "non-breaking space", "footnote reference", "span", "autolink"],
            Focus::Inline(ATOM),
            &[ATOM, WS, WORD, MISC, DELIM, ATTR, LINK, FOOT, ESC, VERB, BLOCK],
            false,
            atom,
            &["[^", "<", "]{"],
            |a| has(a, |e| matches!(e, E::Symbol(_)))
                | has(a, |e| matches!(e, E::Softbreak)) << 1
                | has(a, |e| matches!(e, E::Hardbreak)) << 2
                | has(a, |e| matches!(e, E::NonBreakingSpace)) << 3
                | has(a, |e| matches!(e, E::FootnoteReference(_))) << 4
                | has(a, |e| matches!(container(e), Some(C::Span))) << 5
                | has(a, |e| matches!(container(e), Some(C::Link(_, jotdown::LinkType::AutoLink | jotdown::LinkType::Email)))) << 6,
            800_000
        ),
    ]
}

// ---- C07 ----

/// Text of one line without leading or trailing whitespace.
fn list_labels(a: &[Ev]) -> u64 {
    has(a, |e| starts(e, |c| matches!(c, C::List { kind: jotdown::ListKind::Ordered { .. }, .. })))
                | has(a, |e| starts(e, |c| matches!(c, C::TaskListItem { .. }))) << 1
                | has(a, |e| starts(e, |c| matches!(c, C::List { tight: false, .. }))) << 2
                | ((count(a, |e| starts(e, |c| matches!(c, C::List { .. }))) > 1) as u64) << 3
                | ((count(a, |e| starts(e, |c| matches!(c, C::ListItem))) > 2) as u64) << 4
}

/// Bullets are made of their characters, and of no others, however alike these are.
fn bullets(src: &str) -> Option<String> {
    use jotdown::ListBulletType as B;
    for (i, c) in src.chars().enumerate() {
        let like = char::from_u32((c as u32 & 0xff) | (i as u32 % 0x110 + 1) << 8);
        for c in [Some(c), like].into_iter().flatten() {
            let want = match c {
                '-' => Some(B::Dash),
                '*' => Some(B::Star),
                '+' => Some(B::Plus),
                _ => None,
            };
            let got = B::try_from(c).ok();
            let byte = B::try_from(c as u32 as u8).ok();
            let want_byte = B::try_from((c as u32 as u8) as char).ok();
            if got != want || byte != want_byte {
                return Some(format!("bullet of {c:?}: {got:?}, of the byte {byte:?}"));
            }
            if let Some(b) = got {
                if char::from(b) != c || u32::from(u8::from(b)) != c as u32 {
                    return Some(format!("character of {b:?}: {:?}", char::from(b)));
                }
            }
        }
    }
    None
}

fn plain_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.r(1, 12) {
        match r.n(6) {
            0..=2 => {
                let p = *r.pick(ALL);
                s.push_str(r.pick(p));
            }
            3 => s.push(if r.one(4) { gen::any_char(r) } else { (0x21 + r.n(94) as u8) as char }),
            4 => {
                let c = (0x21 + r.n(94) as u8) as char;
                for _ in 0..r.r(1, 12) {
                    s.push(c);
                }
            }
            _ => s.push_str(r.pick(WORD)),
        }
    }
    s
}

fn one_line(r: &mut Rng) -> String {
    plain_text(r)
        .replace(['\n', '\r', '\t', '\u{b}', '\u{c}'], " ")
        .trim()
        .to_string()
}

pub fn escape_all(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if c.is_ascii_punctuation() {
            o.push('\\');
        }
        o.push(c);
    }
    o
}

fn gen_escape(r: &mut Rng, g: &Guide) -> Case {
    if r.one(4) {
        let lines: Vec<String> = (0..r.few().min(4))
            .map(|_| one_line(r))
            .filter(|l| !l.trim().is_empty())
            .collect();
        Case {
            t: vec![lines.join("\n")],
            n: vec![1],
        }
    } else {
        Case {
            t: vec![doc(
                r,
                g,
                Focus::Inline(ESC),
                &[ESC, WS, WORD, DELIM, VERB, LINK, SMART, ATTR, MISC, TABLE, BLOCK],
            )],
            n: vec![0],
        }
    }
}

fn test_escape(c: &Case) -> Out {
    if c.n[0] != 1 {
        return test(&c.t[0], false, escape, |a| {
            has(a, |e| matches!(e, E::Hardbreak)) << 1
                | has(a, |e| matches!(e, E::NonBreakingSpace)) << 2
                | has(a, |e| text_with(e, &['\\'])) << 3
        });
    }
    let text = c.t[0].as_str();
    // only for texts that do not start or end lines with whitespace
    if text
        .split('\n')
        .any(|l| l.is_empty() || l.trim() != l || l.contains(['\r', '\t', '\u{b}', '\u{c}']))
        // list markers with letters or digits need no punctuation before them
        || text.is_empty()
    {
        return Out::Pass(0);
    }
    let src = escape_all(text);
    let ev = jd::events(&src);
    let mut got = String::new();
    let n = ev.len();
    for (i, (e, r)) in ev.iter().enumerate() {
        match e {
            E::Start(C::Document, a) if i == 0 && a.is_empty() => {}
            E::Start(C::Paragraph, a) if i == 1 && a.is_empty() => {}
            E::End(C::Paragraph) if i + 2 == n => {}
            E::End(C::Document) if i + 1 == n => {}
            E::Str(s) => got.push_str(s),
            E::Softbreak => got.push('\n'),
            E::Escape if &src[r.clone()] == "\\" => {}
            e => {
                return fail(format!(
                    "{src:?}, which is {text:?} escaped, yields event {i} {e:?} at {r:?}"
                ))
            }
        }
    }
    if got != text {
        return fail(format!("{src:?}, which is {text:?} escaped, yields text {got:?}"));
    }
    let html = jd::html(&src, &jd::Mode::Minified);
    let want = format!(
        "<p>{}</p>",
        text.replace('&', "&amp;").replace('<', "&lt;").replace('>', "&gt;")
    );
    if html != want {
        return fail(format!("{src:?} is rendered as {html:?}, expected {want:?}"));
    }
    Out::Pass(u64::from(text.chars().any(|c| c.is_ascii_punctuation())) | 2)
}

// ---- C08 ----

fn gen_verbatim(r: &mut Rng, g: &Guide) -> Case {
    if r.n(4) > 0 {
        return Case {
            t: vec![doc(
                r,
                g,
                Focus::Inline(VERB),
                &[VERB, WS, WORD, RAW, DELIM, LINK, ESC, ATTR, TABLE, BLOCK],
            )],
            n: vec![0],
        };
    }
    let mut lines = Vec::new();
    for i in 0..if r.one(3) { r.r(2, 4) } else { 1 } {
        let mut l = if r.one(3) {
            soup(r, &[VERB, WS, DELIM, ATTR, LINK, ESC])
        } else {
            one_line(r)
        };
        l = l.replace(['\n', '\r', '\t', '\u{b}', '\u{c}'], " ");
        if i > 0 {
            // must not end up as something else than a line of the paragraph
            l = format!("x{}", l.trim());
        }
        lines.push(l);
    }
    let k = lines.len();
    for (i, l) in lines.iter_mut().enumerate() {
        if i + 1 < k {
            *l = l.trim_end().to_string();
        } else if i > 0 {
            *l = l.trim().to_string();
        }
    }
    Case {
        t: vec![lines.join("\n"), (*r.pick(&["html", "tex", "x-y", "a=b", "é"])).into()],
        n: vec![
            1,
            r.n(6) as u64,                      // $, $$, raw
            r.n(4) as u64,                      // surroundings
            if r.one(20) { r.r(3, 255) as u64 } else { 0 }, // run length at least
        ],
    }
}

fn runs(s: &str, c: char) -> Vec<usize> {
    let mut v = Vec::new();
    let mut n = 0;
    for x in s.chars().chain([' ']) {
        if x == c {
            n += 1;
        } else {
            if n > 0 {
                v.push(n);
            }
            n = 0;
        }
    }
    v
}

fn test_verbatim(c: &Case) -> Out {
    if c.n[0] != 1 {
        return test(&c.t[0], false, verbatim, |a| {
            has(a, |e| matches!(container(e), Some(C::Math { .. }))) << 1
                | has(a, |e| matches!(container(e), Some(C::RawInline { .. }))) << 2
                | (a.windows(2).any(|w| {
                    matches!(w[0].0, E::Start(C::Verbatim, _))
                        && matches!(&w[1].0, E::Str(s) if s.contains('\n'))
                }) as u64)
                    << 3
        });
    }
    let text = c.t[0].as_str();
    let lines: Vec<&str> = text.split('\n').collect();
    let ok = !text.is_empty()
        && !text.contains(['\r', '\t', '\u{b}', '\u{c}'])
        && lines.iter().enumerate().all(|(i, l)| {
            (i == 0 || l.starts_with(|c: char| c.is_alphanumeric()) && l.len() > 1)
                && (i + 1 == lines.len() || l.trim_end() == *l && !l.is_empty())
                && (i + 1 != lines.len() || i == 0 || l.trim_end() == *l)
        })
        && (lines.len() == 1 || lines[1..].iter().all(|l| l.starts_with('x')));
    if !ok || c.t.len() < 2 || c.n.len() < 4 {
        return Out::Pass(0);
    }
    let rs = runs(text, '`');
    let mut n = (c.n[3] as usize).max(1);
    while rs.contains(&n) {
        n += 1;
    }
    if n > 255 {
        return Out::Pass(0);
    }
    // whitespace that keeps backticks apart from the delimiters is not part of the content
    let inner = text.to_string();
    let trimmed_start = inner.trim_start_matches(' ');
    let pad_l = trimmed_start.starts_with('`');
    let pad_r = inner.trim_end_matches(' ').ends_with('`');
    if inner.trim_matches(' ').is_empty() {
        return Out::Pass(0);
    }
    let fence = "`".repeat(n);
    let (kind, fmt) = (c.n[1], c.t[1].as_str());
    let fmt_ok = !fmt.is_empty() && !fmt.contains(|c: char| c.is_whitespace() || c == '`' || c == '{' || c == '}');
    let (pre, post, want) = match kind {
        0 => ("$", String::new(), C::Math { display: false }),
        1 => ("$$", String::new(), C::Math { display: true }),
        2 if fmt_ok => ("", format!("{{={fmt}}}"), C::RawInline { format: fmt.into() }),
        _ => ("", String::new(), C::Verbatim),
    };
    // in the first form exactly one space separates a backtick from the delimiter
    let (l, rr) = (if pad_l { " " } else { "" }, if pad_r { " " } else { "" });
    let (before, after, wrap) = match c.n[2] {
        // not a fence
        0 if n < 3 || kind < 2 => ("", "", None),
        1 => ("w ", " w", None),
        2 => ("*b ", " b*", Some(C::Strong)),
        _ => ("> w ", "", Some(C::Blockquote)),
    };
    let body = format!("{before}{pre}{fence}{l}{inner}{rr}{fence}{post}{after}");
    // the first line must not be trimmed by what precedes it
    let src = if before.starts_with('>') {
        gen::prefix(&body, "", "> ")
    } else {
        body
    };
    let ev = jd::events(&src);
    let Some(at) = ev.iter().position(|e| matches!(&e.0, E::Start(c, _) if *c == want)) else {
        return fail(format!("no {want:?} in {src:?}: {ev:?}"));
    };
    if let Some(w) = &wrap {
        if !ev[..at].iter().any(|e| matches!(&e.0, E::Start(c, _) if c == w)) {
            return fail(format!("{src:?}: not in {w:?}"));
        }
    }
    let mut got = String::new();
    let mut i = at + 1;
    while let E::Str(s) = &ev[i].0 {
        got.push_str(s);
        i += 1;
    }
    if ev[i].0 != E::End(want.clone()) {
        return fail(format!("{src:?}: {:?} within {want:?}", ev[i].0));
    }
    // all whitespace between delimiter and backtick belongs to the separation
    let mut expect = inner.as_str();
    if pad_l {
        expect = expect.trim_start_matches(' ');
    }
    if pad_r {
        expect = expect.trim_end_matches(' ');
    }
    let _ = (l, rr);
    if got != expect {
        return fail(format!("{src:?}: content is {got:?}, expected {expect:?}"));
    }
    let n = ev.iter().filter(|e| verbatim(&e.0) && container(&e.0).is_some()).count();
    if n != 2 {
        return fail(format!("{src:?}: something else is verbatim too"));
    }
    Out::Pass(
        1 | 2
            | (u64::from(kind < 2) << 2)
            | (u64::from(kind == 2) << 3)
            | (u64::from(lines.len() > 1) << 4),
    )
}

// ---- C09 ----

fn gen_code(r: &mut Rng, g: &Guide) -> Case {
    if r.n(4) > 0 {
        return Case {
            t: vec![doc(
                r,
                g,
                Focus::Code,
                &[
                    &[
                        "```\n", "\n```\n", "```", "\n```", "~~~\n", "\n~~~\n", "````", "``` rs\n", "``` =html\n", "\n  ```\n",
                        " ```\n", "~~~ x\n", "```x y\n", "\n````\n", "``` `\n", "~~~ ~\n", "\n``` \n", "\n> ```\n", "- ```\n",
                        "\n  x\n", "\n    y\n", "``` =\n", "```=html\n", "\n```` \n", "\n\n",
                    ],
                    WS,
                    WORD,
                    BLOCK,
                    LIST,
                    VERB,
                    ESC,
                    ATTR,
                ],
            )],
            n: vec![0],
        };
    }
    let mut lines = Vec::new();
    for _ in 0..r.n(7) {
        lines.push(match r.n(6) {
            0 => String::new(),
            1 => {
                let c = *r.pick(&["`", "~", ":"]);
                format!("{}{}", " ".repeat(r.n(4)), c.repeat(r.r(1, 8)))
            }
            2 => soup(r, &[BLOCK, LIST, TABLE, ATTR, FOOT]).replace(['\n', '\r'], ""),
            3 => format!("{}{}", " ".repeat(r.n(6)), one_line(r)),
            _ => plain_text(r).replace(['\n', '\r'], " "),
        });
    }
    let pre: String = (0..r.n(4)).map(|_| *r.pick(&['>', '-', '1', ':', 'f', 'd'])).collect();
    Case {
        t: vec![
            lines.join("\n"),
            (*r.pick(&["", "rs", "=html", "=tex", "c++", "é", "a.b"])).into(),
            pre,
        ],
        n: vec![1, r.n(2) as u64, r.n(4) as u64, if r.one(12) { r.count() as u64 } else { 3 }],
    }
}

fn test_code(c: &Case) -> Out {
    if c.n[0] != 1 {
        return test(&c.t[0], false, code, |a| {
            has(a, |e| starts(e, |c| matches!(c, C::RawBlock { .. }))) << 1
                | has(a, |e| starts(e, |c| matches!(c, C::CodeBlock { language } if !language.is_empty()))) << 2
        });
    }
    if c.t.len() < 3 || c.n.len() < 4 || c.t[0].contains('\r') {
        return Out::Pass(0);
    }
    let (text, info, wraps) = (c.t[0].as_str(), c.t[1].as_str(), c.t[2].as_str());
    if info.contains(|c: char| c.is_whitespace() || c == '`' || c == '{') || info == "=" {
        return Out::Pass(0);
    }
    let ch = if c.n[1] == 0 { '`' } else { '~' };
    let mut n = (c.n[3] as usize).max(3);
    for l in text.split('\n') {
        let l = l.trim_start();
        let k = l.chars().take_while(|c| *c == ch).count();
        n = n.max(k + 1);
    }
    let ind = " ".repeat(c.n[2] as usize);
    let f: String = std::iter::repeat_n(ch, n).collect();
    let mut lines: Vec<String> = vec![format!("{ind}{f}{info}")];
    if !text.is_empty() {
        for l in text.split('\n') {
            lines.push(if l.is_empty() { String::new() } else { format!("{ind}{l}") });
        }
    }
    lines.push(format!("{ind}{f}"));
    let mut colons = 2.max(runs(text, ':').into_iter().max().unwrap_or(0));
    for w in wraps.chars().rev() {
        let (first, rest) = match w {
            '>' => ("> ", "> "),
            '-' => ("- ", "  "),
            '1' => ("1. ", "   "),
            ':' => (": t\n\n  ", "  "),
            'f' => ("[^a]: ", "      "),
            _ => {
                colons += 1;
                lines.insert(0, format!("{} d", ":".repeat(colons)));
                lines.push(":".repeat(colons));
                continue;
            }
        };
        let mut out: Vec<String> = Vec::new();
        for (i, l) in lines.iter().enumerate() {
            if i == 0 {
                out.extend(format!("{first}{l}").split('\n').map(str::to_string));
            } else if l.is_empty() && w != '>' {
                out.push(String::new());
            } else {
                out.push(format!("{rest}{l}"));
            }
        }
        lines = out;
    }
    // a div fence within another must be shorter: they were made longer from inside out
    let src = lines.join("\n") + "\n";
    let ev = jd::events(&src);
    let want = match info.strip_prefix('=') {
        Some(f) => C::RawBlock { format: f.into() },
        None => C::CodeBlock { language: info.into() },
    };
    let Some(at) = ev.iter().position(|e| matches!(&e.0, E::Start(c, _) if *c == want)) else {
        return fail(format!("no {want:?} in {src:?}: {ev:?}"));
    };
    let mut got = String::new();
    let mut i = at + 1;
    while let E::Str(s) = &ev[i].0 {
        got.push_str(s);
        i += 1;
    }
    if ev[i].0 != E::End(want.clone()) {
        return fail(format!("{src:?}: {:?} within {want:?}", ev[i].0));
    }
    let mut expect = text.to_string();
    if info.starts_with('=') {
        // the end of the last line is trimmed
        let last = expect.rfind('\n').map_or(0, |i| i + 1);
        let k = expect[last..].trim_end_matches([' ', '\t', '\u{c}']).len();
        expect.truncate(last + k);
    } else if !text.is_empty() {
        expect.push('\n');
    }
    if got != expect {
        return fail(format!("{src:?}: content is {got:?}, expected {expect:?}"));
    }
    for (j, (e, _)) in ev.iter().enumerate() {
        if j < at || j > i {
            match e {
                E::Start(c, _) | E::End(c) if is_block_container(c) || *c == C::Document => {}
                E::Start(C::DescriptionTerm, _) | E::End(C::DescriptionTerm) | E::Blankline => {}
                E::Str(s) if s == "t" => {}
                e => return fail(format!("{src:?}: {e:?} outside of block")),
            }
        }
    }
    Out::Pass(1 | 2 | (u64::from(info.starts_with('=')) << 2) | (u64::from(!info.is_empty()) << 3))
}

// ---- C11 ----

fn test_smart(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let a = jd::events(src);
    let d = refdoc::parse(src);
    if let Some(x) = diff(&a, &d, false) {
        return Out::Fail(x.msg);
    }
    let punct = |e: &Event| !matches!(e, E::Str(_)) && smart(e);
    for (i, (x, y)) in a.iter().zip(&d.events).enumerate() {
        if punct(&x.0) && x.1 != y.1 {
            return fail(format!("event {i} {:?}: range {:?}, expected {:?}", x.0, x.1, y.1));
        }
    }
    if let Some(e) = shown(&a, src.len()) {
        return fail(e);
    }
    let quotes = |e: &Event| {
        matches!(
            e,
            E::LeftSingleQuote | E::RightSingleQuote | E::LeftDoubleQuote | E::RightDoubleQuote
        )
    };
    let dashes = |e: &Event| matches!(e, E::EnDash | E::EmDash);
    let mut l = u64::from(a.iter().any(|e| punct(&e.0)));
    l |= u64::from(a.iter().any(|e| quotes(&e.0))) << 1;
    l |= u64::from(a.iter().any(|e| dashes(&e.0))) << 2;
    l |= u64::from(a.iter().any(|e| matches!(e.0, E::Ellipsis))) << 3;
    l |= u64::from(src.contains("-------")) << 4;
    Out::Pass(l)
}

// ---- C15 ----

/// Events but with what belongs to other properties left out: identifiers, URLs and such.
fn test_attach(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let (a, d) = against_model(src, true);
    if let Some(x) = d {
        return Out::Fail(x.msg);
    }
    if let Some(e) = shown(&a, src.len()) {
        return fail(e);
    }
    let block = |e: &Event| matches!(e, E::Start(c, a) if is_block(c) && !a.is_empty()) || matches!(e, E::ThematicBreak(a) if !a.is_empty());
    let inline = |e: &Event| matches!(e, E::Start(c, a) if !is_block(c) && !a.is_empty());
    let dangling = |e: &Event| matches!(e, E::Attributes(_));
    let several = |e: &Event| matches!(e, E::Start(_, a) | E::ThematicBreak(a) | E::Attributes(a) if a.len() > 1);
    let any = |f: &dyn Fn(&Event) -> bool| u64::from(a.iter().any(|e| f(&e.0)));
    let mut l = any(&block) | any(&inline) | any(&dangling);
    l |= any(&block) << 1;
    l |= any(&inline) << 2;
    l |= any(&dangling) << 3;
    l |= any(&several) << 4;
    Out::Pass(l)
}

// ---- C28 ----

/// Only blocks, and of them only what the lines of the document decide.
fn blocks<'s>(ev: &[Ev<'s>]) -> Vec<(Event<'s>, usize)> {
    let plain = |c: &C<'s>| match c {
        C::Heading { level, has_section, .. } => C::Heading {
            level: *level,
            has_section: *has_section,
            id: "".into(),
        },
        C::Section { .. } => C::Section { id: "".into() },
        c => c.clone(),
    };
    ev.iter()
        .filter_map(|(e, r)| {
            let e = match e {
                E::Start(c, _) if is_block(c) => E::Start(plain(c), Attributes::new()),
                E::End(c) if is_block(c) => return Some((E::End(plain(c)), 0)),
                E::ThematicBreak(_) => E::ThematicBreak(Attributes::new()),
                E::Blankline => E::Blankline,
                _ => return None,
            };
            Some((e, r.start))
        })
        .collect()
}

fn test_blocks(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let a = blocks(&jd::events(src));
    let r = refdoc::parse(src);
    let r = blocks(&r.events);
    if a != r {
        let i = a.iter().zip(&r).take_while(|(x, y)| x == y).count();
        return fail(format!(
            "block events (with starts) differ from event {i}:\n  actual:   {:?}\n  expected: {:?}",
            a[i..].iter().take(8).collect::<Vec<_>>(),
            r[i..].iter().take(8).collect::<Vec<_>>()
        ));
    }
    let has = |f: fn(&C) -> bool| u64::from(a.iter().any(|e| matches!(&e.0, E::Start(c, _) if f(c))));
    let mut depth = 0usize;
    let mut max = 0;
    let mut kinds = std::collections::HashSet::new();
    for (e, _) in &a {
        match e {
            E::Start(c, _) => {
                depth += 1;
                max = max.max(depth);
                kinds.insert(std::mem::discriminant(c));
            }
            E::End(_) => depth = depth.saturating_sub(1),
            _ => {}
        }
    }
    let mut l = u64::from(max > 1 || kinds.len() > 2);
    l |= has(|c| matches!(c, C::Blockquote)) << 1;
    l |= has(|c| matches!(c, C::Div { .. })) << 2;
    l |= u64::from(a.iter().any(|e| matches!(e.0, E::ThematicBreak(_)))) << 3;
    l |= has(|c| matches!(c, C::List { .. })) << 4;
    l |= u64::from(a.windows(2).any(|w| {
        matches!((&w[0].0, &w[1].0), (E::Start(C::Blockquote, _), E::Start(C::Paragraph, _)))
            && src[w[1].1..].lines().nth(1).is_some_and(|l| l.starts_with(|c: char| c.is_alphanumeric()))
    })) << 5;
    l |= has(|c| matches!(c, C::LinkDefinition { .. } | C::Footnote { .. })) << 6;
    Out::Pass(l)
}

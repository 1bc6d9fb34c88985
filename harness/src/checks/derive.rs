//! C30: rendering of event streams that a program has derived from those of the parser.
use super::*;
use crate::gen::*;
use crate::htmlmodel;
use crate::jd::Ev;
use crate::jd::Mode;
use jotdown::Alignment;
use jotdown::AttributeKind;
use jotdown::Container as C;
use jotdown::Event as E;
use jotdown::LinkType;
use jotdown::ListBulletType;
use jotdown::ListKind;
use jotdown::OrderedListNumbering;
use jotdown::OrderedListStyle;
use jotdown::SpanLinkType;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "events of any document after random edits (texts, attributes and payloads replaced, elements dropped, repeated, unwrapped, renamed, inserted or taken from another document), rendered in all modes, against the reference renderer; non-trivial: an edit changed the output",
        labels: &["text", "attributes", "payload", "dropped or repeated", "inserted", "other document"],
        gen: gen_derive,
        test: test_derive,
        relevant: always,
        quick: 500_000,
    }]
}

fn gen_derive(r: &mut Rng, g: &Guide) -> Case {
    Case {
        t: vec![any_doc(r, g), if r.one(3) { any_doc(r, g) } else { String::new() }],
        n: vec![r.u64() >> 40, r.few().min(12) as u64],
    }
}

fn string(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.n(4) {
        let p = *r.pick(&[HOSTILE, WORD, WORD, ESC, MISC, SMART]);
        s.push_str(r.pick(p));
    }
    s
}

fn attributes(r: &mut Rng) -> Attributes<'static> {
    (0..r.n(5))
        .map(|_| {
            let k = match r.n(6) {
                0 => AttributeKind::Class,
                1 => AttributeKind::Id,
                2 => AttributeKind::Comment,
                3 => AttributeKind::Pair {
                    key: (*r.pick(&["class", "id", "style", "href"])).into(),
                },
                _ => AttributeKind::Pair {
                    key: (*r.pick(&["a", "b", "data-x", "k:y"])).into(),
                },
            };
            (k, string(r).into())
        })
        .collect()
}

/// General block containers.
fn takes_blocks(c: &C) -> bool {
    matches!(
        c,
        C::Document
            | C::Blockquote
            | C::ListItem
            | C::TaskListItem { .. }
            | C::DescriptionDetails
            | C::Footnote { .. }
            | C::Section { .. }
            | C::Div { .. }
    )
}

fn takes_inlines(c: &C) -> bool {
    matches!(
        c,
        C::Paragraph | C::Heading { .. } | C::TableCell { .. } | C::Caption | C::DescriptionTerm
    ) || !is_block(c)
        && !matches!(c, C::Verbatim | C::Math { .. } | C::RawInline { .. } | C::Document)
}

/// Another container that may be in the same place.
fn other(r: &mut Rng, c: &C<'static>) -> C<'static> {
    match c {
        C::Blockquote | C::Div { .. } => match r.n(3) {
            0 => C::Blockquote,
            1 => C::Div { class: "".into() },
            _ => C::Div { class: string(r).into() },
        },
        C::List { .. } => C::List {
            kind: match r.n(3) {
                0 => ListKind::Unordered(ListBulletType::Star),
                1 => ListKind::Task(ListBulletType::Plus),
                _ => ListKind::Ordered {
                    numbering: *r.pick(&[
                        OrderedListNumbering::Decimal,
                        OrderedListNumbering::AlphaLower,
                        OrderedListNumbering::AlphaUpper,
                        OrderedListNumbering::RomanLower,
                        OrderedListNumbering::RomanUpper,
                    ]),
                    style: OrderedListStyle::Period,
                    start: *r.pick(&[0, 1, 2, 3, 27, 1 << 40, u64::MAX]),
                },
            },
            tight: r.one(2),
        },
        C::ListItem | C::TaskListItem { .. } => match r.n(3) {
            0 => C::ListItem,
            n => C::TaskListItem { checked: n == 1 },
        },
        C::TableCell { .. } => C::TableCell {
            alignment: *r.pick(&[
                Alignment::Unspecified,
                Alignment::Left,
                Alignment::Right,
                Alignment::Center,
            ]),
            head: r.one(2),
        },
        C::Section { .. } => C::Section { id: string(r).into() },
        C::Paragraph | C::Heading { .. } => match r.n(4) {
            0 => C::Paragraph,
            _ => C::Heading {
                level: *r.pick(&[1, 2, 3, 6, 7, 10, 300]),
                has_section: r.one(2),
                id: string(r).into(),
            },
        },
        C::CodeBlock { .. } | C::RawBlock { .. } => match r.n(3) {
            0 => C::RawBlock {
                format: (*r.pick(&["html", "tex", "HTML", "", "html "])).into(),
            },
            _ => C::CodeBlock {
                language: string(r).into(),
            },
        },
        C::Verbatim | C::Math { .. } | C::RawInline { .. } => match r.n(4) {
            0 => C::Verbatim,
            1 => C::Math { display: r.one(2) },
            _ => C::RawInline {
                format: (*r.pick(&["html", "tex", "HTML", "", "html "])).into(),
            },
        },
        C::Footnote { .. } => C::Footnote {
            label: (*r.pick(&["a", "b", "c", "<"])).into(),
        },
        c if takes_inlines(c) && !is_block(c) => match r.n(14) {
            0 => C::Strong,
            1 => C::Emphasis,
            2 => C::Mark,
            3 => C::Insert,
            4 => C::Delete,
            5 => C::Subscript,
            6 => C::Superscript,
            7 => C::Span,
            8 | 9 => C::Image(
                string(r).into(),
                *r.pick(&[SpanLinkType::Inline, SpanLinkType::Reference, SpanLinkType::Unresolved]),
            ),
            _ => C::Link(
                string(r).into(),
                *r.pick(&[
                    LinkType::Span(SpanLinkType::Inline),
                    LinkType::Span(SpanLinkType::Reference),
                    LinkType::Span(SpanLinkType::Unresolved),
                    LinkType::AutoLink,
                    LinkType::Email,
                ]),
            ),
        },
        c => c.clone(),
    }
}

fn atom(r: &mut Rng) -> E<'static> {
    match r.n(14) {
        0 => E::FootnoteReference((*r.pick(&["a", "b", "c", "<", "none"])).into()),
        1 => E::Symbol((*r.pick(&["s", "+1", "a_b"])).into()),
        2 => E::LeftSingleQuote,
        3 => E::RightSingleQuote,
        4 => E::LeftDoubleQuote,
        5 => E::RightDoubleQuote,
        6 => E::Ellipsis,
        7 => E::EnDash,
        8 => E::EmDash,
        9 => E::NonBreakingSpace,
        10 => E::Softbreak,
        11 => E::Hardbreak,
        12 => E::Escape,
        _ => E::Str(string(r).into()),
    }
}

/// Owned copies of the events.
fn own(ev: &[Ev]) -> Vec<E<'static>> {
    fn s(c: &str) -> std::borrow::Cow<'static, str> {
        c.to_string().into()
    }
    fn at(a: &Attributes) -> Attributes<'static> {
        a.iter()
            .map(|(k, v)| {
                (
                    match k {
                        AttributeKind::Class => AttributeKind::Class,
                        AttributeKind::Id => AttributeKind::Id,
                        AttributeKind::Comment => AttributeKind::Comment,
                        AttributeKind::Pair { key } => AttributeKind::Pair { key: s(key) },
                    },
                    v.to_string().into(),
                )
            })
            .collect()
    }
    fn con(c: &C) -> C<'static> {
        match c {
            C::Footnote { label } => C::Footnote { label: s(label) },
            C::LinkDefinition { label } => C::LinkDefinition { label: s(label) },
            C::Heading { level, has_section, id } => C::Heading {
                level: *level,
                has_section: *has_section,
                id: s(id),
            },
            C::Section { id } => C::Section { id: s(id) },
            C::Div { class } => C::Div { class: s(class) },
            C::CodeBlock { language } => C::CodeBlock { language: s(language) },
            C::RawBlock { format } => C::RawBlock { format: s(format) },
            C::RawInline { format } => C::RawInline { format: s(format) },
            C::Link(d, t) => C::Link(s(d), *t),
            C::Image(d, t) => C::Image(s(d), *t),
            C::Blockquote => C::Blockquote,
            C::List { kind, tight } => C::List {
                kind: *kind,
                tight: *tight,
            },
            C::ListItem => C::ListItem,
            C::TaskListItem { checked } => C::TaskListItem { checked: *checked },
            C::DescriptionList => C::DescriptionList,
            C::DescriptionDetails => C::DescriptionDetails,
            C::DescriptionTerm => C::DescriptionTerm,
            C::Table => C::Table,
            C::TableRow { head } => C::TableRow { head: *head },
            C::TableCell { alignment, head } => C::TableCell {
                alignment: *alignment,
                head: *head,
            },
            C::Caption => C::Caption,
            C::Document => C::Document,
            C::Paragraph => C::Paragraph,
            C::Span => C::Span,
            C::Verbatim => C::Verbatim,
            C::Math { display } => C::Math { display: *display },
            C::Subscript => C::Subscript,
            C::Superscript => C::Superscript,
            C::Insert => C::Insert,
            C::Delete => C::Delete,
            C::Strong => C::Strong,
            C::Emphasis => C::Emphasis,
            C::Mark => C::Mark,
        }
    }
    ev.iter()
        .map(|(e, _)| match e {
            E::Start(c, a) => E::Start(con(c), at(a)),
            E::End(c) => E::End(con(c)),
            E::Str(t) => E::Str(s(t)),
            E::FootnoteReference(t) => E::FootnoteReference(s(t)),
            E::Symbol(t) => E::Symbol(s(t)),
            E::ThematicBreak(a) => E::ThematicBreak(at(a)),
            E::Attributes(a) => E::Attributes(at(a)),
            E::LeftSingleQuote => E::LeftSingleQuote,
            E::RightSingleQuote => E::RightSingleQuote,
            E::LeftDoubleQuote => E::LeftDoubleQuote,
            E::RightDoubleQuote => E::RightDoubleQuote,
            E::Ellipsis => E::Ellipsis,
            E::EnDash => E::EnDash,
            E::EmDash => E::EmDash,
            E::NonBreakingSpace => E::NonBreakingSpace,
            E::Softbreak => E::Softbreak,
            E::Hardbreak => E::Hardbreak,
            E::Escape => E::Escape,
            E::Blankline => E::Blankline,
        })
        .collect()
}

/// For each event the index of the event that starts (or ends) it, and the container it is in.
fn links(ev: &[E<'static>]) -> (Vec<usize>, Vec<Option<usize>>) {
    let mut pair: Vec<usize> = (0..ev.len()).collect();
    let mut parent = vec![None; ev.len()];
    let mut stack = Vec::new();
    for (i, e) in ev.iter().enumerate() {
        match e {
            E::Start(..) => {
                parent[i] = stack.last().copied();
                stack.push(i);
            }
            E::End(_) => {
                let s = stack.pop().expect("balanced");
                pair[i] = s;
                pair[s] = i;
                // what is inserted before it is in that container
                parent[i] = Some(s);
            }
            _ => parent[i] = stack.last().copied(),
        }
    }
    (pair, parent)
}

fn edit(r: &mut Rng, ev: &mut Vec<E<'static>>, more: &[E<'static>]) -> u64 {
    let (pair, parent) = links(ev);
    let inside = |i: usize, f: fn(&C) -> bool| {
        parent[i].is_some_and(|p| matches!(&ev[p], E::Start(c, _) if f(c)))
    };
    // an event of some kind at random
    let find = |r: &mut Rng, f: &dyn Fn(usize) -> bool| -> Option<usize> {
        let from = r.n(ev.len());
        (from..ev.len()).chain(0..from).find(|i| f(*i))
    };
    let node = |i: usize| i > 0 && matches!(ev[i], E::Start(..));
    match r.n(11) {
        0 => {
            if let Some(i) = find(r, &|i| matches!(ev[i], E::Str(_))) {
                ev[i] = E::Str(string(r).into());
                return 1;
            }
        }
        1 => {
            // split a text
            if let Some(i) = find(r, &|i| matches!(ev[i], E::Str(_))) {
                let E::Str(s) = ev[i].clone() else { unreachable!() };
                let c: Vec<char> = s.chars().collect();
                let k = r.n(c.len() + 1);
                ev[i] = E::Str(c[..k].iter().collect::<String>().into());
                ev.insert(i + 1, E::Str(c[k..].iter().collect::<String>().into()));
                return 1;
            }
        }
        2 | 3 => {
            let f = |i: usize| node(i) || matches!(ev[i], E::ThematicBreak(_));
            if let Some(i) = find(r, &f) {
                let a = attributes(r);
                match &mut ev[i] {
                    E::Start(_, x) | E::ThematicBreak(x) => *x = a,
                    _ => {}
                }
                return 2;
            }
        }
        4 | 5 => {
            if let Some(i) = find(r, &node) {
                let E::Start(c, a) = ev[i].clone() else { unreachable!() };
                let n = other(r, &c);
                ev[i] = E::Start(n.clone(), a);
                ev[pair[i]] = E::End(n);
                return 4;
            }
        }
        6 => {
            // drop
            if let Some(i) = find(r, &|i| node(i) || !matches!(ev[i], E::Start(..) | E::End(_))) {
                let to = pair[i];
                ev.drain(i..=to);
                return 8;
            }
        }
        7 => {
            // repeat
            if let Some(i) = find(r, &|i| node(i) || !matches!(ev[i], E::Start(..) | E::End(_))) {
                let to = pair[i];
                if ev.len() + to - i > 5000 {
                    return 0;
                }
                let part: Vec<_> = ev[i..=to].to_vec();
                ev.splice(i..i, part);
                return 8;
            }
        }
        8 => {
            // unwrap
            let f = |i: usize| {
                node(i)
                    && matches!(&ev[i], E::Start(c, _) if takes_inlines(c) && !is_block(c) || matches!(c, C::Div { .. } | C::Blockquote | C::Section { .. }))
            };
            if let Some(i) = find(r, &f) {
                let to = pair[i];
                ev.remove(to);
                ev.remove(i);
                return 8;
            }
        }
        9 => {
            if let Some(i) = find(r, &|i| inside(i, takes_inlines)) {
                ev.insert(i, atom(r));
                return 16;
            }
        }
        _ => {
            if let Some(i) = find(r, &|i| inside(i, takes_blocks)) {
                match r.n(3) {
                    0 => ev.insert(i, E::ThematicBreak(attributes(r))),
                    1 => ev.insert(i, E::Blankline),
                    _ => {
                        if more.len() < 3 || ev.len() + more.len() > 5000 {
                            return 0;
                        }
                        ev.splice(i..i, more[1..more.len() - 1].iter().cloned());
                        return 32;
                    }
                }
                return 16;
            }
        }
    }
    0
}

fn test_derive(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let mut ev = own(&jd::events(src));
    let more = own(&jd::events(c.t.get(1).map_or("", String::as_str)));
    let mut r = Rng::new(c.n.first().copied().unwrap_or(0));
    let mut l = 0;
    for _ in 0..c.n.get(1).copied().unwrap_or(0) {
        l |= edit(&mut r, &mut ev, &more);
    }
    let ev: Vec<Ev> = ev.into_iter().map(|e| (e, 0..0)).collect();
    let ps = match htmlmodel::pieces(&ev) {
        Ok(p) => p,
        Err(e) => return fail(format!("the edited events are not balanced: {e}")),
    };
    let len = src.len() + c.t.get(1).map_or(0, String::len) + 40 * ev.len();
    let modes = [
        Mode::Minified,
        Mode::Default,
        Mode::Indented(r.pick(&["  ", "\t", "", "x"]).to_string(), r.n(3)),
    ];
    for m in &modes {
        let html = jd::render(len, ev.iter().map(|e| e.0.clone()), m);
        let want = htmlmodel::text(&ps, m);
        if html != want {
            return fail(format!(
                "{}\n  mode {m:?}, events: {:?}",
                super::html::first_diff(&html, &want),
                ev.iter().map(|e| &e.0).take(60).collect::<Vec<_>>()
            ));
        }
    }
    Out::Pass(l << 1 | u64::from(l > 0))
}

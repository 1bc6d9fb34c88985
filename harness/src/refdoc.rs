//! Reference parser for whole documents: block tree (refblock) with inline content (refinline).
use crate::refattr;
use crate::refattr::Elems;
use crate::refblock;
use crate::refblock::Node;
use crate::refblock::N;
use crate::refinline;
use crate::refinline::Joined;
use crate::refinline::C;
use crate::refinline::I;
use jotdown::Container;
use jotdown::Event;
use jotdown::LinkType;
use jotdown::SpanLinkType;
use std::collections::HashMap;
use std::collections::HashSet;
use std::ops::Range;

pub type Ev = (Event<'static>, Range<usize>);

#[derive(Default)]
pub struct Doc {
    pub events: Vec<Ev>,
    /// Events for which several destinations are acceptable (references to headings with equal
    /// text).
    pub alt: HashMap<usize, Vec<Ev>>,
}

struct Heading {
    id: String,
    text: String,
}

struct Walk<'s> {
    src: &'s str,
    headings: HashMap<usize, usize>,
    heads: Vec<Heading>,
    defs: HashMap<String, (String, Elems)>,
    used: HashSet<String>,
    out: Doc,
    pending: Option<(Elems, Range<usize>)>,
}

fn parse_attr(s: &str) -> Elems {
    refattr::group(s.as_bytes(), 0).expect("valid attributes").1
}

pub fn parse(src: &str) -> Doc {
    let root = refblock::parse(src);
    parse_tree(src, &root)
}

pub fn parse_tree(src: &str, root: &Node) -> Doc {
    let mut w = Walk {
        src,
        headings: HashMap::new(),
        heads: Vec::new(),
        defs: HashMap::new(),
        used: HashSet::new(),
        out: Doc::default(),
        pending: None,
    };
    w.collect(root, &mut Vec::new(), None);
    w.emit(root);
    w.out
}

impl Walk<'_> {
    /// Find headings and link definitions. `pending` holds attributes written right before.
    fn collect(&mut self, n: &Node, pending: &mut Elems, inherited: Option<Elems>) {
        if n.n == N::Attr {
            pending.extend(parse_attr(&self.src[n.start.clone()]));
            return;
        }
        let own = std::mem::take(pending);
        match &n.n {
            N::LinkDef(label) => {
                let url = n
                    .lines
                    .iter()
                    .map(|l| self.src[l.clone()].trim_matches(|c: char| c.is_ascii_whitespace()))
                    .collect();
                self.defs.insert(label.clone(), (url, own));
            }
            N::Heading { .. } => {
                let own = inherited.unwrap_or(own);
                let (text, auto) = self.heading_text(n);
                let mut id = auto;
                let empty = id.is_empty();
                if empty {
                    id.push('s');
                }
                if empty || self.used.contains(&id) {
                    let base = id.clone();
                    id = (1..)
                        .map(|i| format!("{base}-{i}"))
                        .find(|i| !self.used.contains(i))
                        .unwrap();
                }
                self.used.insert(id.clone());
                let explicit = refattr::unique(&own)
                    .into_iter()
                    .find(|(k, _)| k == "id")
                    .map(|(_, v)| refattr::display(&v));
                self.headings.insert(n.start.start, self.heads.len());
                self.heads.push(Heading {
                    id: explicit.unwrap_or(id),
                    text,
                });
            }
            N::Section { .. } => {
                let mut inner = Vec::new();
                let mut own = Some(own);
                for k in &n.kids {
                    self.collect(k, &mut inner, own.take());
                }
            }
            _ => {
                let mut inner = Vec::new();
                for k in &n.kids {
                    self.collect(k, &mut inner, None);
                }
            }
        }
    }

    /// Text without formatting, and id derived from it (not unique yet, may be empty).
    fn heading_text(&self, n: &Node) -> (String, String) {
        let j = Joined::new(self.src, &n.lines);
        let mut text = String::new();
        let mut id = String::new();
        let mut gap = true;
        for e in refinline::parse(&j) {
            match e.i {
                I::Text => {
                    let s = &self.src[j.range(e.a, e.b)];
                    text.push_str(s);
                    let mut prev_ws = false;
                    for c in s.chars() {
                        if c.is_ascii_whitespace() {
                            if !prev_ws && !gap {
                                gap = true;
                                id.push('-');
                            }
                            prev_ws = true;
                        } else {
                            prev_ws = false;
                            if !c.is_ascii_punctuation() || c == '-' || c == '_' {
                                id.push(c);
                                gap = false;
                            }
                        }
                    }
                }
                I::Soft => {
                    text.push(' ');
                    id.push('-');
                }
                _ => {}
            }
        }
        while id.ends_with('-') {
            id.pop();
        }
        (text, id)
    }

    fn push(&mut self, e: Event<'static>, r: Range<usize>) {
        self.out.events.push((e, r));
    }

    fn container(&self, n: &Node) -> Container<'static> {
        let id = |pos: usize| -> String { self.heads[self.headings[&pos]].id.clone() };
        match n.n.clone() {
            N::Document => Container::Document,
            N::Section { heading } => Container::Section {
                id: id(heading).into(),
            },
            N::Quote => Container::Blockquote,
            N::Div(class) => Container::Div {
                class: class.into(),
            },
            N::Footnote(label) => Container::Footnote {
                label: label.into(),
            },
            N::List {
                kind: Some(kind),
                tight,
            } => Container::List { kind, tight },
            N::List { kind: None, .. } => Container::DescriptionList,
            N::Item => Container::ListItem,
            N::Task(checked) => Container::TaskListItem { checked },
            N::Term => Container::DescriptionTerm,
            N::Details => Container::DescriptionDetails,
            N::Table => Container::Table,
            N::Row(head) => Container::TableRow { head },
            N::Para => Container::Paragraph,
            N::Heading { level, section } => Container::Heading {
                level,
                has_section: section,
                id: id(n.start.start).into(),
            },
            N::LinkDef(label) => Container::LinkDefinition {
                label: label.into(),
            },
            N::Code(info) => match info.strip_prefix('=') {
                Some(f) => Container::RawBlock {
                    format: f.to_string().into(),
                },
                None => Container::CodeBlock {
                    language: info.into(),
                },
            },
            N::Cell(alignment, head) => Container::TableCell { alignment, head },
            N::Caption => Container::Caption,
            N::Blank | N::Attr | N::Break => unreachable!(),
        }
    }

    fn dangling(&mut self) {
        if let Some((a, r)) = self.pending.take() {
            self.push(Event::Attributes(refattr::to_jd(&a)), r);
        }
    }

    fn emit(&mut self, n: &Node) {
        match &n.n {
            N::Blank => {
                self.dangling();
                self.push(Event::Blankline, n.start.clone());
                return;
            }
            N::Attr => {
                let more = parse_attr(&self.src[n.start.clone()]);
                let (a, r) = self
                    .pending
                    .get_or_insert_with(|| (vec![], n.start.clone()));
                a.extend(more);
                r.end = n.start.end;
                return;
            }
            _ => {}
        }
        let (attrs, from) = match self.pending.take() {
            Some((a, r)) => (refattr::to_jd(&a), r.start),
            None => (jotdown::Attributes::new(), n.start.start),
        };
        let start = from..n.start.end;
        if n.n == N::Break {
            self.push(Event::ThematicBreak(attrs), start);
            return;
        }
        let c = self.container(n);
        self.push(Event::Start(c.clone(), attrs), start);
        match &n.n {
            N::Code(_) | N::LinkDef(_) => {
                for l in &n.lines {
                    self.push(
                        Event::Str(self.src[l.clone()].to_string().into()),
                        l.clone(),
                    );
                }
            }
            N::Para | N::Heading { .. } | N::Cell(..) | N::Caption | N::Term => {
                self.inline(&n.lines);
            }
            _ => {
                for k in &n.kids {
                    self.emit(k);
                }
            }
        }
        self.dangling();
        self.push(Event::End(c), n.end.clone());
    }

    fn inline(&mut self, lines: &[Range<usize>]) {
        let j = Joined::new(self.src, lines);
        for e in refinline::parse(&j) {
            let r = j.range(e.a, e.b);
            let ev = match e.i {
                I::Start(c, mut attrs) => {
                    let (cs, def) = self.inline_container(&c);
                    if let Some(mut d) = def {
                        d.extend(attrs);
                        attrs = d;
                    }
                    let mut evs: Vec<Ev> = cs
                        .into_iter()
                        .map(|c| (Event::Start(c, refattr::to_jd(&attrs)), r.clone()))
                        .collect();
                    let first = evs[0].clone();
                    if evs.len() > 1 {
                        self.out
                            .alt
                            .insert(self.out.events.len(), evs.split_off(0));
                    }
                    first.0
                }
                I::End(c) => {
                    let (cs, _) = self.inline_container(&c);
                    let mut evs: Vec<Ev> =
                        cs.into_iter().map(|c| (Event::End(c), r.clone())).collect();
                    let first = evs[0].clone();
                    if evs.len() > 1 {
                        self.out
                            .alt
                            .insert(self.out.events.len(), evs.split_off(0));
                    }
                    first.0
                }
                I::Text => Event::Str(self.src[r.clone()].to_string().into()),
                I::FootRef(l) => Event::FootnoteReference(l.into()),
                I::Symbol(s) => Event::Symbol(s.into()),
                I::Soft => Event::Softbreak,
                I::Hard => Event::Hardbreak,
                I::Escape => Event::Escape,
                I::Nbsp => Event::NonBreakingSpace,
                I::Ellipsis => Event::Ellipsis,
                I::En => Event::EnDash,
                I::Em => Event::EmDash,
                I::Quote(false, true) => Event::LeftSingleQuote,
                I::Quote(false, false) => Event::RightSingleQuote,
                I::Quote(true, true) => Event::LeftDoubleQuote,
                I::Quote(true, false) => Event::RightDoubleQuote,
                I::WordAttr(a) => Event::Attributes(refattr::to_jd(&a)),
            };
            self.push(ev, r);
        }
    }

    /// Acceptable containers, and attributes of the link definition.
    fn inline_container(&self, c: &C) -> (Vec<Container<'static>>, Option<Elems>) {
        let one = |c| (vec![c], None);
        match c {
            C::Span => one(Container::Span),
            C::Sub => one(Container::Subscript),
            C::Sup => one(Container::Superscript),
            C::Ins => one(Container::Insert),
            C::Del => one(Container::Delete),
            C::Emph => one(Container::Emphasis),
            C::Strong => one(Container::Strong),
            C::Mark => one(Container::Mark),
            C::Verbatim => one(Container::Verbatim),
            C::Raw(f) => one(Container::RawInline {
                format: f.clone().into(),
            }),
            C::Math(display) => one(Container::Math { display: *display }),
            C::Link(url) => one(Container::Link(
                url.clone().into(),
                LinkType::Span(SpanLinkType::Inline),
            )),
            C::Image(url) => one(Container::Image(url.clone().into(), SpanLinkType::Inline)),
            C::Auto(url) => one(Container::Link(
                url.clone().into(),
                if url.contains('@') {
                    LinkType::Email
                } else {
                    LinkType::AutoLink
                },
            )),
            C::RefLink(tag) | C::RefImage(tag) => {
                let make = |dest: String, ty: SpanLinkType| {
                    if matches!(c, C::RefLink(_)) {
                        Container::Link(dest.into(), LinkType::Span(ty))
                    } else {
                        Container::Image(dest.into(), ty)
                    }
                };
                if let Some((url, attrs)) = self.defs.get(tag) {
                    return (
                        vec![make(url.clone(), SpanLinkType::Reference)],
                        Some(attrs.clone()),
                    );
                }
                let heads: Vec<_> = self
                    .heads
                    .iter()
                    .filter(|h| h.text == *tag)
                    .map(|h| make(format!("#{}", h.id), SpanLinkType::Reference))
                    .collect();
                if heads.is_empty() {
                    one(make(tag.clone(), SpanLinkType::Unresolved))
                } else {
                    (heads, None)
                }
            }
        }
    }
}

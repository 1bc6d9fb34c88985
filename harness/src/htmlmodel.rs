//! Reference renderer: event tree to pieces of HTML, and pieces to text in each formatting mode.
use crate::jd::Ev;
use crate::jd::Mode;
use crate::refattr;
use crate::tree;
use crate::tree::Tree;
use jotdown::Alignment;
use jotdown::Attributes;
use jotdown::Container as C;
use jotdown::Event as E;
use jotdown::LinkType;
use jotdown::ListKind;
use jotdown::OrderedListNumbering as Num;
use jotdown::SpanLinkType;
use std::collections::HashMap;

/// Stands for a character reference to a non-breaking space in an attribute value.
pub const NBSP: char = '\u{fdd0}';

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum P {
    /// Line break before a block tag, with the depth of the line that starts.
    Break(usize),
    /// As Break, but nothing has been written before: only indentation.
    First(usize),
    /// Line break within text.
    Soft(usize),
    /// Name, attributes (decoded), whether it ends with `/>`.
    Open(&'static str, Vec<(String, String)>, bool),
    Heading(u16, Vec<(String, String)>),
    CloseHeading(u16),
    Close(&'static str),
    Text(String),
    Raw(String),
    Nbsp,
}

struct Render<'e, 's> {
    out: Vec<P>,
    first: bool,
    /// Depth of nested block containers.
    depth: usize,
    /// Order of first reference.
    refs: Vec<String>,
    notes: HashMap<String, Vec<&'e Tree<'e, 's>>>,
}

/// Pieces, not including the final line break.
pub fn pieces(events: &[Ev]) -> Result<Vec<P>, String> {
    let t = tree::build(events)?;
    let Tree::Node { kids, .. } = &t else {
        return Err("no document".into());
    };
    let mut r = Render {
        out: Vec::new(),
        first: true,
        depth: 0,
        refs: Vec::new(),
        notes: HashMap::new(),
    };
    kids.iter().for_each(|k| r.collect(k));
    for k in kids {
        r.tree(k, false);
    }
    r.end();
    Ok(r.out)
}

fn attrs(a: &Attributes) -> Vec<(String, String)> {
    refattr::unique(&refattr::from_jd(a))
        .into_iter()
        .map(|(k, v)| (k, refattr::display(&v)))
        .collect()
}

fn add_class(v: &mut Vec<(String, String)>, class: &str) {
    match v.iter_mut().find(|a| a.0 == "class") {
        Some(a) => {
            a.1.push(' ');
            a.1.push_str(class);
        }
        None => v.push(("class".into(), class.into())),
    }
}

fn add_id(v: &mut Vec<(String, String)>, id: &str) {
    if !v.iter().any(|a| a.0 == "id") {
        v.push(("id".into(), id.into()));
    }
}

/// Text that stands for an element within an image description.
fn alt(t: &Tree, out: &mut String) {
    match t {
        Tree::Node { kids, .. } => kids.iter().for_each(|k| alt(k, out)),
        Tree::Atom(e) => out.push_str(&match e {
            E::Str(s) => s.to_string(),
            E::Symbol(s) => format!(":{s}:"),
            E::NonBreakingSpace => NBSP.to_string(),
            E::Softbreak | E::Hardbreak => "\n".into(),
            E::FootnoteReference(_) => String::new(),
            e => punct(e).unwrap_or("").into(),
        }),
    }
}

fn punct(e: &E) -> Option<&'static str> {
    Some(match e {
        E::LeftSingleQuote => "\u{2018}",
        E::RightSingleQuote => "\u{2019}",
        E::LeftDoubleQuote => "\u{201c}",
        E::RightDoubleQuote => "\u{201d}",
        E::Ellipsis => "\u{2026}",
        E::EnDash => "\u{2013}",
        E::EmDash => "\u{2014}",
        _ => return None,
    })
}

impl<'e, 's> Render<'e, 's> {
    fn br(&mut self) {
        self.out.push(if self.first {
            P::First(self.depth)
        } else {
            P::Break(self.depth)
        });
    }

    fn open(&mut self, name: &'static str, a: Vec<(String, String)>) {
        self.out.push(P::Open(name, a, false));
    }

    /// Block container: contents are one level deeper.
    fn container(
        &mut self,
        name: &'static str,
        a: Vec<(String, String)>,
        kids: &'e [Tree<'e, 's>],
        tight: bool,
    ) {
        self.br();
        self.depth += 1;
        self.open(name, a);
        self.first = false;
        for k in kids {
            self.tree(k, tight);
        }
        self.depth -= 1;
        self.br();
        self.out.push(P::Close(name));
    }

    fn leaf(&mut self, name: &'static str, a: Vec<(String, String)>, kids: &'e [Tree<'e, 's>]) {
        self.br();
        self.first = false;
        self.inline(name, a, kids);
    }

    fn inline(&mut self, name: &'static str, a: Vec<(String, String)>, kids: &'e [Tree<'e, 's>]) {
        self.open(name, a);
        for k in kids {
            self.tree(k, false);
        }
        self.out.push(P::Close(name));
    }

    /// `tight`: whether paragraphs have no tags here.
    fn tree(&mut self, t: &'e Tree<'e, 's>, tight: bool) {
        let (c, at, kids) = match t {
            Tree::Atom(e) => return self.atom(e),
            Tree::Node { c, attrs, kids } => (*c, *attrs, kids.as_slice()),
        };
        let mut a = attrs(at);
        match c {
            C::Footnote { .. } | C::LinkDefinition { .. } => return,
            C::Document => {}
            C::Blockquote => self.container("blockquote", a, kids, tight),
            C::List { kind, tight } => {
                let name = match kind {
                    ListKind::Unordered(_) => "ul",
                    ListKind::Task(_) => {
                        add_class(&mut a, "task-list");
                        "ul"
                    }
                    ListKind::Ordered {
                        numbering, start, ..
                    } => {
                        let mut b = Vec::new();
                        if *start > 1 {
                            b.push(("start".to_string(), start.to_string()));
                        }
                        let ty = match numbering {
                            Num::Decimal => "",
                            Num::AlphaLower => "a",
                            Num::AlphaUpper => "A",
                            Num::RomanLower => "i",
                            Num::RomanUpper => "I",
                        };
                        if !ty.is_empty() {
                            b.push(("type".to_string(), ty.to_string()));
                        }
                        b.extend(a);
                        a = b;
                        "ol"
                    }
                };
                self.container(name, a, kids, *tight);
            }
            C::ListItem => self.container("li", a, kids, tight),
            C::TaskListItem { checked } => {
                self.br();
                self.depth += 1;
                self.first = false;
                self.open("li", a);
                self.br();
                let mut i = vec![
                    ("disabled".to_string(), String::new()),
                    ("type".to_string(), "checkbox".to_string()),
                ];
                if *checked {
                    i.push(("checked".to_string(), String::new()));
                }
                self.out.push(P::Open("input", i, true));
                for k in kids {
                    self.tree(k, tight);
                }
                self.depth -= 1;
                self.br();
                self.out.push(P::Close("li"));
            }
            C::DescriptionList => self.container("dl", a, kids, tight),
            C::DescriptionDetails => self.container("dd", a, kids, tight),
            C::DescriptionTerm => self.leaf("dt", a, kids),
            C::Table => self.container("table", a, kids, tight),
            C::TableRow { .. } => self.container("tr", a, kids, tight),
            C::TableCell { alignment, head } => {
                let align = match alignment {
                    Alignment::Unspecified => None,
                    Alignment::Left => Some("left"),
                    Alignment::Center => Some("center"),
                    Alignment::Right => Some("right"),
                };
                if let Some(x) = align {
                    a.push(("style".into(), format!("text-align: {x};")));
                }
                self.leaf(if *head { "th" } else { "td" }, a, kids);
            }
            C::Caption => self.leaf("caption", a, kids),
            C::Section { id } => {
                add_id(&mut a, id);
                self.container("section", a, kids, tight);
            }
            C::Div { class } => {
                if !class.is_empty() {
                    add_class(&mut a, class);
                }
                self.container("div", a, kids, tight);
            }
            C::Paragraph => {
                self.br();
                if tight {
                    for k in kids {
                        self.tree(k, false);
                    }
                } else {
                    self.first = false;
                    self.inline("p", a, kids);
                }
            }
            C::Heading {
                level,
                has_section,
                id,
            } => {
                if !has_section {
                    add_id(&mut a, id);
                }
                self.br();
                self.first = false;
                self.out.push(P::Heading(*level, a));
                for k in kids {
                    self.tree(k, false);
                }
                self.out.push(P::CloseHeading(*level));
            }
            C::CodeBlock { language } => {
                self.br();
                self.first = false;
                self.open("pre", a);
                let l = if language.is_empty() {
                    vec![]
                } else {
                    vec![("class".to_string(), format!("language-{language}"))]
                };
                self.inline("code", l, kids);
                self.out.push(P::Close("pre"));
            }
            C::RawBlock { format } => {
                self.br();
                self.raw(format, kids);
            }
            C::RawInline { format } => self.raw(format, kids),
            C::Span => self.inline("span", a, kids),
            C::Math { display } => {
                add_class(&mut a, if *display { "math display" } else { "math inline" });
                self.open("span", a);
                self.out
                    .push(P::Text(if *display { "\\[" } else { "\\(" }.into()));
                for k in kids {
                    self.tree(k, false);
                }
                self.out
                    .push(P::Text(if *display { "\\]" } else { "\\)" }.into()));
                self.out.push(P::Close("span"));
            }
            C::Link(dst, ty) => {
                let mut b = Vec::new();
                match ty {
                    LinkType::Span(SpanLinkType::Unresolved) => {}
                    LinkType::Email => b.push(("href".to_string(), format!("mailto:{dst}"))),
                    _ => b.push(("href".to_string(), dst.to_string())),
                }
                b.extend(a);
                self.inline("a", b, kids);
            }
            C::Image(src, _) => {
                let mut s = String::new();
                kids.iter().for_each(|k| alt(k, &mut s));
                a.push(("alt".into(), s));
                if !src.is_empty() {
                    a.push(("src".into(), src.to_string()));
                }
                self.open("img", a);
            }
            C::Verbatim => self.inline("code", a, kids),
            C::Subscript => self.inline("sub", a, kids),
            C::Superscript => self.inline("sup", a, kids),
            C::Insert => self.inline("ins", a, kids),
            C::Delete => self.inline("del", a, kids),
            C::Strong => self.inline("strong", a, kids),
            C::Emphasis => self.inline("em", a, kids),
            C::Mark => self.inline("mark", a, kids),
        }
        self.first = false;
    }

    fn raw(&mut self, format: &str, kids: &[Tree]) {
        if format == "html" {
            for k in kids {
                if let Tree::Atom(E::Str(s)) = k {
                    self.out.push(P::Raw(s.to_string()));
                }
            }
        }
    }

    /// Contents of all footnotes, also those within others; the last definition counts.
    fn collect(&mut self, t: &'e Tree<'e, 's>) {
        if let Tree::Node { c, kids, .. } = t {
            kids.iter().for_each(|k| self.collect(k));
            if let C::Footnote { label } = c {
                self.notes.insert(label.to_string(), kids.iter().collect());
            }
        }
    }

    fn atom(&mut self, e: &E) {
        match e {
            E::Str(s) => self.out.push(P::Text(s.to_string())),
            E::FootnoteReference(label) => {
                let n = match self.refs.iter().position(|l| *l == label.as_ref()) {
                    Some(i) => i + 1,
                    None => {
                        self.refs.push(label.to_string());
                        self.refs.len()
                    }
                };
                self.open(
                    "a",
                    vec![
                        ("id".into(), format!("fnref{n}")),
                        ("href".into(), format!("#fn{n}")),
                        ("role".into(), "doc-noteref".into()),
                    ],
                );
                self.open("sup", vec![]);
                self.out.push(P::Text(n.to_string()));
                self.out.push(P::Close("sup"));
                self.out.push(P::Close("a"));
            }
            E::Symbol(s) => self.out.push(P::Text(format!(":{s}:"))),
            E::NonBreakingSpace => self.out.push(P::Nbsp),
            E::Softbreak => self.out.push(P::Soft(self.depth)),
            E::Hardbreak => {
                self.open("br", vec![]);
                self.br();
            }
            E::ThematicBreak(a) => {
                self.br();
                self.open("hr", attrs(a));
            }
            E::Escape | E::Blankline | E::Attributes(_) => {}
            E::Start(..) | E::End(_) => unreachable!(),
            e => self.out.push(P::Text(punct(e).unwrap().into())),
        }
        self.first = false;
    }

    /// Endnotes.
    fn end(&mut self) {
        if self.refs.is_empty() {
            return;
        }
        let simple = |s: &mut Self, name, a| {
            s.br();
            s.open(name, a);
        };
        simple(self, "section", vec![("role".into(), "doc-endnotes".into())]);
        simple(self, "hr", vec![]);
        simple(self, "ol", vec![]);
        let mut n = 0;
        while n < self.refs.len() {
            let label = self.refs[n].clone();
            n += 1;
            simple(self, "li", vec![("id".into(), format!("fn{n}"))]);
            let kids = self.notes.remove(&label).unwrap_or_default();
            let mut open = false;
            for k in kids {
                if matches!(
                    k,
                    Tree::Atom(E::Blankline | E::Escape)
                        | Tree::Node {
                            c: C::Footnote { .. },
                            ..
                        }
                ) {
                    continue;
                }
                self.tree(k, false);
                open = matches!(k, Tree::Node { c: C::Paragraph, .. });
            }
            if open {
                // the back link is part of the last paragraph
                assert_eq!(self.out.pop(), Some(P::Close("p")));
            } else {
                self.br();
                self.open("p", vec![]);
            }
            self.open(
                "a",
                vec![
                    ("href".into(), format!("#fnref{n}")),
                    ("role".into(), "doc-backlink".into()),
                ],
            );
            self.out.push(P::Text("\u{21A9}\u{FE0E}".into()));
            self.out.push(P::Close("a"));
            self.out.push(P::Close("p"));
            self.br();
            self.out.push(P::Close("li"));
        }
        self.br();
        self.out.push(P::Close("ol"));
        self.br();
        self.out.push(P::Close("section"));
    }
}

pub fn escape(s: &str, quotes: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '<' => o.push_str("&lt;"),
            '>' => o.push_str("&gt;"),
            '&' => o.push_str("&amp;"),
            '"' if quotes => o.push_str("&quot;"),
            c => o.push(c),
        }
    }
    o
}

pub fn text(ps: &[P], mode: &Mode) -> String {
    let mut o = String::new();
    let (unit, level) = match mode {
        Mode::Indented(s, l) => (s.as_str(), *l),
        _ => ("", 0),
    };
    let min = *mode == Mode::Minified;
    let tag = |o: &mut String, name: &str, a: &[(String, String)], slash: bool| {
        o.push('<');
        o.push_str(name);
        for (k, v) in a {
            o.push_str(&format!(" {k}=\""));
            o.push_str(&escape(v, true).replace(NBSP, "&nbsp;"));
            o.push('"');
        }
        o.push_str(if slash { "/>" } else { ">" });
    };
    for p in ps {
        match p {
            P::Break(_) | P::First(_) if min => {}
            P::Break(d) | P::Soft(d) => {
                o.push('\n');
                if !min {
                    o.push_str(&unit.repeat(level + d));
                }
            }
            P::First(d) => o.push_str(&unit.repeat(level + d)),
            P::Open(n, a, s) => tag(&mut o, n, a, *s),
            P::Heading(l, a) => tag(&mut o, &format!("h{l}"), a, false),
            P::CloseHeading(l) => o.push_str(&format!("</h{l}>")),
            P::Close(n) => o.push_str(&format!("</{n}>")),
            P::Text(s) => o.push_str(&escape(s, false)),
            P::Raw(s) => o.push_str(s),
            P::Nbsp => o.push_str("&nbsp;"),
        }
    }
    if !min {
        o.push('\n');
    }
    o
}

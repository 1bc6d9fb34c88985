//! Reference block parser: builds a tree of blocks from lines.
use crate::refattr;
use jotdown::Alignment;
use jotdown::ListBulletType as Bullet;
use jotdown::ListKind;
use jotdown::OrderedListNumbering as Num;
use jotdown::OrderedListStyle as Style;
use std::ops::Range;

pub type Span = Range<usize>;

#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Document,
    Section { heading: usize },
    Quote,
    Div(String),
    Footnote(String),
    /// None for description list
    List { kind: Option<ListKind>, tight: bool },
    Item,
    Task(bool),
    Term,
    Details,
    Table,
    Row(bool),
    // leaves
    Para,
    Heading { level: u16, section: bool },
    LinkDef(String),
    Code(String),
    Cell(Alignment, bool),
    Caption,
    // atoms
    Blank,
    Attr,
    Break,
}

#[derive(Clone, Debug)]
pub struct Node {
    pub n: N,
    pub start: Span,
    pub end: Span,
    pub kids: Vec<Node>,
    pub lines: Vec<Span>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Marker {
    Bullet(u8),
    Task(u8, bool),
    Desc,
    Ord(Num, u64, Style),
}

#[derive(Clone, Debug, PartialEq)]
enum B {
    Blank,
    Attr,
    Break,
    Para,
    Heading(usize),
    Quote,
    /// footnote, label
    Def(bool, String),
    /// character, length, info
    Fence(u8, usize, String),
    Item(Marker),
    Row,
}

/// What a line looks like on its own. Also indentation, and span of marker relative to line.
struct Line {
    b: B,
    indent: usize,
    mark: Span,
}

fn ws(c: u8) -> bool {
    c.is_ascii_whitespace()
}
fn blank(s: &str) -> bool {
    s.bytes().all(ws)
}
fn indent_of(s: &str) -> usize {
    s.bytes().take_while(|c| ws(*c) && *c != b'\n').count()
}

fn look(line: &str) -> Line {
    let indent = indent_of(line);
    let l = &line[indent..];
    let t = l.trim_end_matches(|c: char| c.is_ascii_whitespace());
    let (b, mark) = look_at(l, t, indent).unwrap_or((B::Para, indent..indent));
    Line { b, indent, mark }
}

fn look_at(l: &str, t: &str, indent: usize) -> Option<(B, Span)> {
    let bytes = l.as_bytes();
    let ws_at = |i: usize| bytes.get(i).is_none_or(|c| ws(*c));
    let m = |n: usize| indent..indent + n;
    if t.is_empty() {
        return Some((B::Blank, m(l.len().min(1))));
    }
    let c = bytes[0];
    let run = bytes.iter().take_while(|b| **b == c).count();
    match c {
        b'#' if ws_at(run) && run <= 65535 => Some((B::Heading(run), m(run))),
        b'>' if ws_at(1) => Some((B::Quote, m(1))),
        b'{' if refattr::group(bytes, 0).is_ok_and(|(e, _)| e == t.len()) => {
            Some((B::Attr, m(l.len())))
        }
        b'|' if is_row(t) => Some((B::Row, m(0))),
        b'[' => {
            let close = l.find(']')?;
            (bytes.get(close + 1) == Some(&b':')).then(|| {
                let label = &l[1..close];
                let (foot, label) = match label.strip_prefix('^') {
                    Some(l) => (true, l),
                    None => (false, label),
                };
                (B::Def(foot, label.to_string()), indent..indent + close + 2)
            })
        }
        b'-' | b'*'
            if t.bytes().all(|c| matches!(c, b'-' | b'*') || ws(c))
                && t.bytes().filter(|c| !ws(*c)).count() >= 3 =>
        {
            Some((B::Break, m(t.len())))
        }
        b'-' | b'*' | b'+' => {
            if !(bytes.len() == 1 || bytes[1] == b' ') {
                return None;
            }
            if bytes.len() >= 5
                && bytes[2] == b'['
                && matches!(bytes[3], b' ' | b'x' | b'X')
                && bytes[4] == b']'
                && ws_at(5)
            {
                Some((B::Item(Marker::Task(c, bytes[3] != b' ')), m(5)))
            } else {
                Some((B::Item(Marker::Bullet(c)), m(1)))
            }
        }
        b':' if ws_at(1) => Some((B::Item(Marker::Desc), m(1))),
        b':' | b'`' | b'~' => {
            let info = t[run..].trim_start_matches(|c: char| c.is_ascii_whitespace());
            let ok = if c == b':' {
                info.bytes()
                    .all(|c| c.is_ascii_alphanumeric() || matches!(c, b':' | b'_' | b'-'))
            } else {
                !info.bytes().any(|c| ws(c) || c == b'`')
            };
            (ok && run >= 3).then(|| (B::Fence(c, run, info.to_string()), m(l.len())))
        }
        _ => ordered(bytes).map(|(mk, n)| (B::Item(mk), m(n))),
    }
}

fn is_row(t: &str) -> bool {
    t.starts_with('|') && cells(t).is_some_and(|(_, rest)| rest == t.len())
}

/// Split a row into cells, given as ranges between pipes. Also position after last pipe.
fn cells(t: &str) -> Option<(Vec<Span>, usize)> {
    let b = t.as_bytes();
    let mut out = Vec::new();
    let mut from = 1;
    let mut p = 1;
    while p < b.len() {
        match b[p] {
            b'\\' if b.get(p + 1).is_some_and(|c| ws(*c) || c.is_ascii_punctuation()) => p += 2,
            b'`' => {
                let run = |q: usize| b[q..].iter().take_while(|c| **c == b'`').count();
                let n = run(p);
                p += n;
                loop {
                    if p >= b.len() {
                        break;
                    }
                    let m = run(p);
                    p += m.max(1);
                    if m == n {
                        break;
                    }
                }
            }
            b'|' => {
                out.push(from..p);
                p += 1;
                from = p;
            }
            _ => p += 1,
        }
    }
    (!out.is_empty()).then_some((out, from))
}

fn ordered(b: &[u8]) -> Option<(Marker, usize)> {
    let paren = b[0] == b'(';
    let s = usize::from(paren);
    let first = *b.get(s)?;
    const ROMAN: &[u8] = b"ivxlcdm";
    let lower = |c: u8| ROMAN.contains(&c);
    let upper = |c: u8| ROMAN.contains(&c.to_ascii_lowercase()) && c.is_ascii_uppercase();
    let (num, max): (Num, usize) = match first {
        b'0'..=b'9' => (Num::Decimal, 19),
        c if lower(c) => (Num::RomanLower, 13),
        c if upper(c) => (Num::RomanUpper, 13),
        b'a'..=b'z' => (Num::AlphaLower, 1),
        b'A'..=b'Z' => (Num::AlphaUpper, 1),
        _ => return None,
    };
    let digit = |c: u8| match num {
        Num::Decimal => c.is_ascii_digit(),
        Num::RomanLower => lower(c),
        Num::RomanUpper => upper(c),
        Num::AlphaLower => c.is_ascii_lowercase(),
        Num::AlphaUpper => c.is_ascii_uppercase(),
    };
    let n = b[s..].iter().take(max).take_while(|c| digit(**c)).count();
    let style = match (paren, *b.get(s + n)?) {
        (true, b')') => Style::ParenParen,
        (false, b')') => Style::Paren,
        (false, b'.') => Style::Period,
        _ => return None,
    };
    if b.get(s + n + 1).is_some_and(|c| !ws(*c)) {
        return None;
    }
    let digits = std::str::from_utf8(&b[s..s + n]).unwrap();
    let value = match num {
        Num::Decimal => digits.parse().unwrap(),
        Num::AlphaLower | Num::AlphaUpper => alpha(first),
        _ => roman(digits),
    };
    Some((Marker::Ord(num, value, style), s + n + 1))
}

fn alpha(c: u8) -> u64 {
    u64::from(c.to_ascii_lowercase() - b'a') + 1
}

fn roman(s: &str) -> u64 {
    let v: Vec<u64> = s
        .bytes()
        .map(|c| match c.to_ascii_lowercase() {
            b'i' => 1,
            b'v' => 5,
            b'x' => 10,
            b'l' => 50,
            b'c' => 100,
            b'd' => 500,
            _ => 1000,
        })
        .collect();
    let mut plus = 0;
    let mut minus = 0;
    for (i, x) in v.iter().enumerate() {
        if v.get(i + 1).is_some_and(|n| n > x) {
            minus += x;
        } else {
            plus += x;
        }
    }
    plus - minus
}

/// If a single-letter roman numeral, its value as a letter.
fn as_alpha(num: Num, value: u64) -> Option<(Num, u64)> {
    let c = [
        (1, b'i'),
        (5, b'v'),
        (10, b'x'),
        (50, b'l'),
        (100, b'c'),
        (500, b'd'),
        (1000, b'm'),
    ]
    .iter()
    .find(|(v, _)| *v == value)?
    .1;
    match num {
        Num::RomanLower => Some((Num::AlphaLower, alpha(c))),
        Num::RomanUpper => Some((Num::AlphaUpper, alpha(c))),
        _ => None,
    }
}

/// Whether an item with marker `b` continues a list whose last item had marker `a`; returns
/// possibly reinterpreted markers.
fn compatible(a: Marker, b: Marker) -> Option<(Marker, Marker)> {
    match (a, b) {
        (Marker::Task(x, _), Marker::Task(y, _)) => (x == y).then_some((a, b)),
        (Marker::Ord(n0, v0, s0), Marker::Ord(n1, v1, s1)) if s0 == s1 => {
            if n0 == n1 {
                return Some((a, b));
            }
            if let Some((n, v)) = as_alpha(n0, v0) {
                return (n == n1 && v + 1 == v1).then_some((Marker::Ord(n, v, s0), b));
            }
            if let Some((n, v)) = as_alpha(n1, v1) {
                return (n == n0 && v0 + 1 == v).then_some((a, Marker::Ord(n, v, s1)));
            }
            None
        }
        _ => (a == b).then_some((a, b)),
    }
}

/// How many of the lines belong to the block that starts at the first. Also whether a closing
/// fence was found, or a blank line within a table, or a caption.
struct Extent {
    n: usize,
    closed: bool,
}

fn extent(src: &str, lines: &[Span], first: &Line) -> Extent {
    let rest = || lines[1..].iter().map(|l| &src[l.clone()]);
    let count = |f: &mut dyn FnMut(&str) -> bool| 1 + rest().take_while(|l| f(l)).count();
    let mut closed = false;
    let n = match &first.b {
        B::Blank | B::Attr | B::Break => 1,
        B::Para => count(&mut |l| !blank(l)),
        B::Quote => count(&mut |l| matches!(look(l).b, B::Quote | B::Para)),
        B::Heading(level) => {
            count(&mut |l| matches!(look(l).b, B::Para) || look(l).b == B::Heading(*level))
        }
        B::Def(false, _) => count(&mut |l| indent_of(l) > first.indent && !blank(l)),
        B::Item(_) | B::Def(true, _) => {
            let mut after_blank = false;
            count(&mut |l| {
                if blank(l) {
                    after_blank = true;
                    return true;
                }
                let lazy = !after_blank && look(l).b == B::Para;
                after_blank = false;
                lazy || indent_of(l) > first.indent
            })
        }
        B::Fence(c, len, _) => {
            let mut inner: Option<(u8, usize)> = None;
            let mut done = false;
            let n = count(&mut |l| {
                if done {
                    return false;
                }
                if let B::Fence(c2, len2, info) = look(l).b {
                    match inner {
                        Some((ic, il)) => {
                            if ic == c2 && len2 >= il && info.is_empty() {
                                inner = None;
                            }
                        }
                        None if c2 == *c => done = len2 >= *len && info.is_empty(),
                        None if *c == b':' => inner = Some((c2, len2)),
                        None => {}
                    }
                }
                true
            });
            closed = done;
            n
        }
        B::Row => {
            let mut after_blank = false;
            let mut caption = false;
            let mut n = count(&mut |l| {
                if blank(l) {
                    after_blank = true;
                    return !caption;
                }
                let t = l.trim_matches(|c: char| c.is_ascii_whitespace());
                if caption {
                    return true;
                }
                if t.starts_with("^ ") {
                    caption = true;
                    return true;
                }
                !after_blank && is_row(t)
            });
            if !caption {
                while blank(&src[lines[n - 1].clone()]) {
                    n -= 1;
                }
            }
            n
        }
    };
    Extent { n, closed }
}

pub struct Builder<'s> {
    src: &'s str,
}

struct Cur {
    node: Node,
    first: Marker,
    prev: Marker,
    /// `first` is still the marker of the previous item
    same: bool,
}

pub fn parse(src: &str) -> Node {
    let mut lines = Vec::new();
    let mut from = 0;
    for (i, c) in src.bytes().enumerate() {
        if c == b'\n' {
            lines.push(from..i + 1);
            from = i + 1;
        }
    }
    if from < src.len() {
        lines.push(from..src.len());
    }
    let mut b = Builder {
        src,
    };
    let end = src.len();
    let mut kids = b.blocks(&mut lines, 0, end, true);
    kids.iter_mut().for_each(tightness);
    let kids = sections(kids, end);
    Node {
        n: N::Document,
        start: 0..0,
        end: end..end,
        kids,
        lines: vec![],
    }
}

/// Whether the last line of a block is a blank line that separates it from what follows.
fn ends_blank(n: &Node) -> bool {
    match n.n {
        N::Blank => true,
        // the rest of the marker's line is no blank line
        N::Item | N::Task(_) | N::Footnote(_) if n.kids.len() == 1 && n.kids[0].n == N::Blank => false,
        N::Item | N::Task(_) | N::Footnote(_) => n.kids.last().is_some_and(ends_blank),
        _ => false,
    }
}

/// A list is loose if blank lines separate its items or blocks of an item other than lists.
fn tightness(n: &mut Node) {
    n.kids.iter_mut().for_each(tightness);
    let between_items = n.kids.windows(2).any(|w| ends_blank(&w[0]));
    let in_item = n.kids.iter().any(|i| {
        i.kids.windows(2).enumerate().any(|(k, w)| {
            let blank = ends_blank(&w[0]) && !(k == 0 && w[0].n == N::Blank);
            blank && !matches!(w[1].n, N::List { .. } | N::Blank)
        })
    });
    if let N::List { tight, .. } = &mut n.n {
        *tight = !between_items && !in_item;
    }
}

/// Nest top-level blocks into sections.
fn sections(blocks: Vec<Node>, end: usize) -> Vec<Node> {
    let mut stack: Vec<(u16, Node)> = Vec::new();
    let mut root: Vec<Node> = Vec::new();
    fn add(stack: &mut Vec<(u16, Node)>, root: &mut Vec<Node>, n: Node) {
        match stack.last_mut() {
            Some((_, s)) => s.kids.push(n),
            None => root.push(n),
        }
    }
    let mut attrs: Vec<Node> = Vec::new();
    for b in blocks {
        if b.n == N::Attr {
            attrs.push(b);
            continue;
        }
        if let N::Heading { level, .. } = b.n {
            let at = attrs.first().map_or(b.start.start, |a| a.start.start);
            while stack.last().is_some_and(|(l, _)| *l >= level) {
                let (_, mut s) = stack.pop().unwrap();
                s.end = at..at;
                add(&mut stack, &mut root, s);
            }
            for a in attrs.drain(..) {
                add(&mut stack, &mut root, a);
            }
            let pos = b.start.start;
            stack.push((
                level,
                Node {
                    n: N::Section { heading: pos },
                    start: pos..pos,
                    end: 0..0,
                    kids: vec![b],
                    lines: vec![],
                },
            ));
        } else {
            for a in attrs.drain(..) {
                add(&mut stack, &mut root, a);
            }
            add(&mut stack, &mut root, b);
        }
    }
    for a in attrs.drain(..) {
        add(&mut stack, &mut root, a);
    }
    while let Some((_, mut s)) = stack.pop() {
        s.end = end..end;
        add(&mut stack, &mut root, s);
    }
    root
}

impl Builder<'_> {
    fn trim_start(&self, r: Span) -> Span {
        let n = self.src[r.clone()].bytes().take_while(|c| ws(*c)).count();
        r.start + n..r.end
    }
    fn trim_end(&self, r: Span) -> Span {
        let n = self.src[r.clone()].bytes().rev().take_while(|c| ws(*c)).count();
        r.start..r.end - n
    }
    fn trim(&self, r: Span) -> Span {
        self.trim_end(self.trim_start(r))
    }

    fn finish_list(&mut self, cur: Cur, out: &mut Vec<Node>, end: usize) {
        let mut node = cur.node;
        node.n = N::List {
            kind: match cur.first {
                Marker::Bullet(c) => Some(ListKind::Unordered(Bullet::try_from(c).unwrap())),
                Marker::Task(c, _) => Some(ListKind::Task(Bullet::try_from(c).unwrap())),
                Marker::Desc => None,
                Marker::Ord(numbering, start, style) => Some(ListKind::Ordered {
                    numbering,
                    style,
                    start,
                }),
            },
            tight: true,
        };
        node.end = end..end;
        out.push(node);
    }

    /// `end` is where the enclosing container ends.
    fn blocks(&mut self, lines: &mut [Span], level: usize, end: usize, top: bool) -> Vec<Node> {
        let mut out = Vec::new();
        let mut cur: Option<Cur> = None;
        let mut i = 0;
        while i < lines.len() {
            let first = look(&self.src[lines[i].clone()]);
            let Extent { n, closed } = extent(self.src, &lines[i..], &first);
            let base = lines[i].start;
            let start = base + first.mark.start..base + first.mark.end;

            // does the list go on?
            let mut joins = false;
            if let Some(c) = cur.as_mut() {
                if let B::Item(m) = first.b {
                    if let Some((p, m)) = compatible(c.prev, m) {
                        let same = c.same || type_eq(c.first, c.prev);
                        if same {
                            c.first = p;
                        }
                        c.prev = m;
                        c.same = false;
                        joins = true;
                    }
                }
            }
            if !joins {
                if let Some(c) = cur.take() {
                    self.finish_list(c, &mut out, start.start);
                }
            }

            if let (B::Item(m), false) = (&first.b, joins) {
                cur = Some(Cur {
                    node: Node {
                        n: N::Document,
                        start: start.start..start.start,
                        end: 0..0,
                        kids: vec![],
                        lines: vec![],
                    },
                    first: *m,
                    prev: *m,
                    same: true,
                });
            }

            let nodes = self.block(&mut lines[i..i + n], &first, start, closed, level, top);
            match cur.as_mut() {
                Some(c) => c.node.kids.extend(nodes),
                None => out.extend(nodes),
            }
            i += n;
        }
        if let Some(c) = cur.take() {
            self.finish_list(c, &mut out, end);
        }
        out
    }

    fn block(
        &mut self,
        lines: &mut [Span],
        first: &Line,
        start: Span,
        closed: bool,
        level: usize,
        top: bool,
    ) -> Vec<Node> {
        let src = self.src;
        let last = lines[lines.len() - 1].clone();
        let end = if closed { last } else { last.end..last.end };
        let prefix = first.mark.end;
        let node = |n: N, kids: Vec<Node>, lines: Vec<Span>| Node {
            n,
            start: start.clone(),
            end: end.clone(),
            kids,
            lines,
        };
        lines[0].start += prefix;
        let strip = |l: &Span, max: usize| {
            let n = indent_of(&src[l.clone()]).min(max);
            l.start + n..l.end
        };
        match &first.b {
            B::Blank => vec![node(N::Blank, vec![], vec![])],
            B::Attr => vec![node(N::Attr, vec![], vec![])],
            B::Break => vec![node(N::Break, vec![], vec![])],
            B::Para => vec![node(N::Para, vec![], self.text(lines))],
            B::Heading(n) => {
                for l in lines.iter_mut().skip(1) {
                    let t = self.trim_start(l.clone());
                    let s = &src[t.clone()];
                    if s.bytes().take_while(|c| *c == b'#').count() == *n
                        && s.as_bytes().get(*n).is_some_and(|c| ws(*c))
                    {
                        *l = self.trim_start(t.start + n..t.end);
                    }
                }
                let h = N::Heading {
                    level: *n as u16,
                    section: top,
                };
                vec![node(h, vec![], self.text(lines))]
            }
            B::Def(false, label) => {
                let mut l: Vec<Span> = lines
                    .iter()
                    .map(|l| self.trim(l.clone()))
                    .collect();
                l.retain(|l| !l.is_empty());
                vec![node(N::LinkDef(label.clone()), vec![], l)]
            }
            B::Fence(c, _, info) => {
                let to = lines.len() - usize::from(closed);
                let inner: Vec<Span> = lines[1..to]
                    .iter()
                    .map(|l| strip(l, first.indent))
                    .collect();
                if *c == b':' {
                    let mut inner = inner;
                    let kids = self.blocks(&mut inner, level + 1, end.start, false);
                    vec![node(N::Div(info.clone()), kids, vec![])]
                } else {
                    let mut inner = inner;
                    if info.starts_with('=') {
                        if let Some(l) = inner.last_mut() {
                            *l = self.trim_end(l.clone());
                        }
                    }
                    inner.retain(|l| !l.is_empty());
                    vec![node(N::Code(info.clone()), vec![], inner)]
                }
            }
            B::Quote => {
                for (i, l) in lines.iter_mut().enumerate() {
                    if i > 0 {
                        let t = self.trim_start(l.clone());
                        let s = &src[t.clone()];
                        if s.starts_with('>') && s[1..].bytes().next().is_none_or(ws) {
                            *l = t.start + 1..t.end;
                        } else {
                            continue;
                        }
                    }
                    let s = src[l.clone()].bytes().next();
                    let drop = match s {
                        Some(b'\n') | None => false,
                        // the space after the marker of a line
                        Some(c) if i == 0 || blank(&src[l.clone()]) => matches!(c, b' ' | b'\t'),
                        Some(_) => true,
                    };
                    l.start += usize::from(drop);
                }
                let kids = self.blocks(lines, level + 1, end.start, false);
                vec![node(N::Quote, kids, vec![])]
            }
            B::Def(true, label) => {
                for l in lines.iter_mut().skip(1) {
                    *l = strip(l, prefix);
                }
                let kids = self.blocks(lines, level + 1, end.start, false);
                vec![node(N::Footnote(label.clone()), kids, vec![])]
            }
            B::Item(m) => {
                for l in lines.iter_mut().skip(1) {
                    *l = strip(l, prefix);
                }
                let inner = lines[0].start;
                let kids = self.blocks(lines, level + 1, end.start, false);
                match m {
                    Marker::Task(_, checked) => vec![node(N::Task(*checked), kids, vec![])],
                    Marker::Desc => self.description(kids, start, inner, end),
                    _ => vec![node(N::Item, kids, vec![])],
                }
            }
            B::Row => vec![self.table(lines, start, end)],
        }
    }

    /// Lines of a leaf block with inline content.
    fn text(&self, lines: &[Span]) -> Vec<Span> {
        let mut l: Vec<Span> = lines.iter().map(|l| self.trim_start(l.clone())).collect();
        if let Some(last) = l.last_mut() {
            *last = self.trim_end(last.clone());
        }
        l.retain(|l| !l.is_empty());
        l
    }

    fn description(&self, kids: Vec<Node>, start: Span, inner: usize, end: Span) -> Vec<Node> {
        let mut kids = kids.into_iter().peekable();
        let mut out = Vec::new();
        let details = if kids.peek().is_some_and(|k| k.n == N::Para) {
            let p = kids.next().unwrap();
            let mut pos = p.end.end;
            out.push(Node {
                n: N::Term,
                start,
                ..p
            });
            while kids.peek().is_some_and(|k| k.n == N::Blank) {
                let b = kids.next().unwrap();
                pos = b.start.end;
                out.push(b);
            }
            kids.peek().map_or(pos, |k| k.start.start)
        } else {
            out.push(Node {
                n: N::Term,
                start: start.clone(),
                end: start.end..start.end,
                kids: vec![],
                lines: vec![],
            });
            inner
        };
        out.push(Node {
            n: N::Details,
            start: details..details,
            end,
            kids: kids.collect(),
            lines: vec![],
        });
        out
    }

    fn table(&self, lines: &[Span], start: Span, end: Span) -> Node {
        let src = self.src;
        let mut kids = Vec::new();
        let cap = lines
            .iter()
            .position(|l| src[self.trim_start(l.clone())].starts_with('^'))
            .unwrap_or(lines.len());
        if cap < lines.len() {
            let mut l = lines[cap..].to_vec();
            l[0].start = self.trim_start(l[0].clone()).start + 2;
            for x in &mut l {
                *x = self.trim_start(x.clone());
            }
            let n = l.len();
            l[n - 1] = self.trim_end(l[n - 1].clone());
            kids.push(Node {
                n: N::Caption,
                start: start.clone(),
                end: end.clone(),
                kids: vec![],
                lines: l,
            });
        }
        let mut align: Vec<Alignment> = vec![];
        let mut last_row: Option<usize> = None;
        for l in &lines[..cap] {
            let r = self.trim(l.clone());
            if r.is_empty() {
                break;
            }
            let (cs, _) = cells(&src[r.clone()]).expect("row");
            let cs: Vec<(Span, Span)> = cs
                .into_iter()
                .map(|c| {
                    let c = r.start + c.start..r.start + c.end;
                    (c.clone(), self.trim_cell(c))
                })
                .collect();
            let seps: Option<Vec<Alignment>> =
                cs.iter().map(|(_, c)| separator(&src[c.clone()])).collect();
            if let Some(a) = seps {
                align = a;
                if let Some(i) = last_row {
                    let row: &mut Node = &mut kids[i];
                    row.n = N::Row(true);
                    for (j, c) in row.kids.iter_mut().enumerate() {
                        c.n = N::Cell(get(&align, j), true);
                    }
                }
                continue;
            }
            last_row = Some(kids.len());
            kids.push(Node {
                n: N::Row(false),
                start: r.start..r.start + 1,
                end: r.end..r.end,
                kids: cs
                    .iter()
                    .enumerate()
                    .map(|(j, (c, t))| Node {
                        n: N::Cell(get(&align, j), false),
                        start: c.start..c.start,
                        end: c.end..c.end + 1,
                        kids: vec![],
                        lines: vec![t.clone()],
                    })
                    .collect(),
                lines: vec![],
            });
        }
        Node {
            n: N::Table,
            start,
            end,
            kids,
            lines: vec![],
        }
    }

    fn trim_cell(&self, c: Span) -> Span {
        self.trim(c)
    }
}

fn get(a: &[Alignment], i: usize) -> Alignment {
    a.get(i).copied().unwrap_or(Alignment::Unspecified)
}

fn type_eq(a: Marker, b: Marker) -> bool {
    match (a, b) {
        (Marker::Task(x, _), Marker::Task(y, _)) => x == y,
        _ => a == b,
    }
}

/// `-+`, optionally with colons at its ends.
fn separator(s: &str) -> Option<Alignment> {
    let l = s.starts_with(':');
    let r = s.len() > 1 && s.ends_with(':');
    let mid = &s[usize::from(l)..s.len() - usize::from(r)];
    let dashes = mid.bytes().all(|c| c == b'-');
    // `:-:`, at least one dash
    if !dashes || mid.is_empty() {
        return None;
    }
    Some(match (l, r) {
        (false, false) => Alignment::Unspecified,
        (false, true) => Alignment::Right,
        (true, false) => Alignment::Left,
        (true, true) => Alignment::Center,
    })
}

//! Reference inline parser. Works on the text of a whole leaf block at once (its lines joined,
//! container prefixes already removed) with a map back to source positions.
use crate::refattr;
use crate::refattr::Elems;
use std::ops::Range;

#[derive(Clone, Debug, PartialEq)]
pub enum C {
    Span,
    Sub,
    Sup,
    Ins,
    Del,
    Emph,
    Strong,
    Mark,
    Verbatim,
    Raw(String),
    Math(bool),
    RefLink(String),
    RefImage(String),
    Link(String),
    Image(String),
    Auto(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum I {
    Start(C, Elems),
    End(C),
    Text,
    FootRef(String),
    Symbol(String),
    Soft,
    Hard,
    Escape,
    Nbsp,
    Ellipsis,
    En,
    Em,
    /// (double, left)
    Quote(bool, bool),
    /// Attributes written after text (attach to its last word, if any).
    WordAttr(Elems),
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub i: I,
    pub a: usize,
    pub b: usize,
}

/// Joined lines of a leaf.
pub struct Joined {
    pub t: Vec<u8>,
    map: Vec<usize>,
    end: usize,
    /// Positions of newlines.
    nl: Vec<usize>,
}

impl Joined {
    pub fn new(src: &str, lines: &[Range<usize>]) -> Self {
        let mut t = Vec::new();
        let mut map = Vec::new();
        for l in lines {
            for p in l.clone() {
                t.push(src.as_bytes()[p]);
                map.push(p);
            }
        }
        let nl = (0..t.len()).filter(|i| t[*i] == b'\n').collect();
        Joined {
            t,
            nl,
            map,
            end: lines.last().map_or(0, |l| l.end),
        }
    }
    fn at(&self, p: usize) -> Option<u8> {
        self.t.get(p).copied()
    }
    fn start(&self, a: usize) -> usize {
        self.map.get(a).copied().unwrap_or(self.end)
    }
    /// Source range of text range.
    pub fn range(&self, a: usize, b: usize) -> Range<usize> {
        if a < b {
            self.start(a)..self.map[b - 1] + 1
        } else if a > 0 && a < self.t.len() && self.t[a - 1] != b'\n' || a == self.t.len() && a > 0 {
            let p = self.map[a - 1] + 1;
            p..p
        } else {
            let p = self.start(a);
            p..p
        }
    }
    fn str(&self, a: usize, b: usize) -> String {
        String::from_utf8_lossy(&self.t[a..b]).into_owned()
    }
    fn eol(&self, p: usize) -> usize {
        let i = self.nl.partition_point(|i| *i < p);
        self.nl.get(i).map_or(self.t.len(), |i| i + 1)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Kind {
    Strong,
    Emph,
    Sup,
    Sub,
    Mark,
    Del,
    Ins,
    Single,
    Double,
    Span { image: bool },
    Dest { span: usize, image: bool, inline: bool },
}

#[derive(Clone, Copy, Debug)]
struct Open {
    kind: Kind,
    /// Written with a brace, e.g. `{*`.
    marked: bool,
    /// Index of its event.
    ev: usize,
}

fn ws(c: u8) -> bool {
    c.is_ascii_whitespace()
}

fn delim(c: u8) -> Option<Kind> {
    Some(match c {
        b'*' => Kind::Strong,
        b'_' => Kind::Emph,
        b'^' => Kind::Sup,
        b'~' => Kind::Sub,
        b'=' => Kind::Mark,
        b'-' => Kind::Del,
        b'+' => Kind::Ins,
        b'\'' => Kind::Single,
        b'"' => Kind::Double,
        _ => return None,
    })
}

struct P<'j> {
    j: &'j Joined,
    out: Vec<Ev>,
    open: Vec<Open>,
    p: usize,
}

pub fn parse(j: &Joined) -> Vec<Ev> {
    let mut p = P {
        j,
        out: Vec::new(),
        open: Vec::new(),
        p: 0,
    };
    while p.p < j.t.len() {
        p.step();
    }
    finish(j, p.out)
}

/// Merge adjacent text and attach word attributes.
fn finish(j: &Joined, evs: Vec<Ev>) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::new();
    for e in evs {
        match e.i {
            I::Text if e.a == e.b => {}
            I::Text => {
                if let Some(Ev { i: I::Text, b, .. }) = out.last_mut() {
                    let contiguous = *b == e.a
                        && (*b == 0
                            || *b >= j.t.len()
                            || j.start(*b) == j.map[*b - 1] + 1);
                    if contiguous {
                        *b = e.b;
                        continue;
                    }
                }
                out.push(e);
            }
            I::WordAttr(elems) => {
                if let Some(Ev { i: I::Text, a, b }) = out.last().cloned() {
                    let w = j.t[a..b].iter().rposition(|c| ws(*c)).map_or(a, |i| a + i + 1);
                    out.pop();
                    if a < w {
                        out.push(Ev { i: I::Text, a, b: w });
                    }
                    if w < b {
                        out.push(Ev {
                            i: I::Start(C::Span, elems),
                            a: w,
                            b: w,
                        });
                        out.push(Ev { i: I::Text, a: w, b });
                        out.push(Ev {
                            i: I::End(C::Span),
                            a: e.a,
                            b: e.b,
                        });
                        continue;
                    }
                }
                out.push(Ev {
                    i: I::WordAttr(elems),
                    a: e.a,
                    b: e.b,
                });
            }
            _ => out.push(e),
        }
    }
    out
}

impl P<'_> {
    fn push(&mut self, i: I, a: usize, b: usize) {
        self.out.push(Ev { i, a, b });
        self.p = self.p.max(b);
    }

    fn at(&self, p: usize) -> Option<u8> {
        self.j.at(p)
    }

    fn step(&mut self) {
        let p = self.p;
        let c = self.j.t[p];
        let n = self.at(p + 1);
        match c {
            b'\n' => self.push(I::Soft, p, p + 1),
            b'\\' => match n {
                Some(e) if ws(e) || e.is_ascii_punctuation() => {
                    self.push(I::Escape, p, p + 1);
                    let mut q = p + 1;
                    while matches!(self.at(q), Some(b' ' | b'\t')) {
                        q += 1;
                    }
                    if self.at(q) == Some(b'\n') {
                        self.push(I::Hard, p + 1, q + 1);
                    } else if e == b' ' {
                        self.push(I::Nbsp, p + 1, p + 2);
                    } else {
                        self.push(I::Text, p + 1, p + 2);
                    }
                }
                _ => self.push(I::Text, p, p + 1),
            },
            b'`' => self.verbatim(),
            b'{' if n.is_some_and(|n| delim(n).is_some()) => {
                let k = delim(n.unwrap()).unwrap();
                self.opener(k, true, 2);
            }
            b'{' => {
                if let Some((end, elems)) = refattr::groups(&self.j.t, p) {
                    if !elems.is_empty() {
                        self.push(I::WordAttr(elems), p, end);
                    }
                    self.p = end;
                } else {
                    self.push(I::Text, p, p + 1);
                }
            }
            b'<' => {
                let line = &self.j.t[p + 1..self.j.eol(p)];
                let stop = line.iter().position(|c| matches!(c, b'<' | b'>') || ws(*c));
                match stop {
                    Some(l)
                        if line[l] == b'>'
                            && line[..l].iter().any(|c| matches!(c, b':' | b'@')) =>
                    {
                        let url = self.j.str(p + 1, p + 1 + l);
                        self.push(I::Start(C::Auto(url.clone()), vec![]), p, p + 1);
                        self.push(I::Text, p + 1, p + 1 + l);
                        self.push(I::End(C::Auto(url)), p + 1 + l, p + 2 + l);
                    }
                    _ => self.push(I::Text, p, p + 1),
                }
            }
            b':' => {
                let line = &self.j.t[p + 1..self.j.eol(p)];
                let l = line
                    .iter()
                    .position(|c| !(c.is_ascii_alphanumeric() || matches!(c, b'-' | b'+' | b'_')))
                    .unwrap_or(line.len());
                if line.get(l) == Some(&b':') {
                    let s = self.j.str(p + 1, p + 1 + l);
                    self.push(I::Symbol(s), p, p + 2 + l);
                } else {
                    self.push(I::Text, p, p + 1);
                }
            }
            b'.' => {
                let mut q = p;
                while self.at(q) == Some(b'.') {
                    q += 1;
                }
                let mut a = p;
                while q - a >= 3 {
                    self.push(I::Ellipsis, a, a + 3);
                    a += 3;
                }
                // possibly empty, a quote after it is not an opener either way
                self.push(I::Text, a, q);
            }
            b'-' if n == Some(b'}') => self.closer(Kind::Del, true, 2),
            b'-' => {
                let mut q = p + 1;
                while self.at(q) == Some(b'-') && self.at(q + 1) != Some(b'}') {
                    q += 1;
                }
                let n = q - p;
                let (em, en) = match n {
                    1 => {
                        self.push(I::Text, p, p + 1);
                        return;
                    }
                    n if n % 3 == 0 => (n / 3, 0),
                    n if n % 2 == 0 => (0, n / 2),
                    n if n % 3 == 2 => ((n - 2) / 3, 1),
                    n => ((n - 4) / 3, 2),
                };
                let mut a = p;
                for _ in 0..em {
                    self.push(I::Em, a, a + 3);
                    a += 3;
                }
                for _ in 0..en {
                    self.push(I::En, a, a + 2);
                    a += 2;
                }
            }
            b'[' => {
                if n == Some(b'^') && self.at(p + 2) != Some(b'}') {
                    let line = &self.j.t[p + 2..self.j.eol(p)];
                    let stop = line.iter().position(|c| matches!(c, b'[' | b']' | b'\n'));
                    if let Some(l) = stop.filter(|l| line[*l] == b']') {
                        let label = self.j.str(p + 2, p + 2 + l);
                        self.push(I::FootRef(label), p, p + 3 + l);
                        return;
                    }
                }
                self.opener(Kind::Span { image: false }, true, 1);
            }
            b'!' if n == Some(b'[') => self.opener(Kind::Span { image: true }, true, 2),
            b']' => self.closer(Kind::Span { image: false }, true, 1),
            b')' => self.closer(
                Kind::Dest {
                    span: 0,
                    image: false,
                    inline: true,
                },
                true,
                1,
            ),
            c if n == Some(b'}') && delim(c).is_some() => self.closer(delim(c).unwrap(), true, 2),
            b'*' | b'_' | b'^' | b'~' | b'\'' | b'"' => self.closer(delim(c).unwrap(), false, 1),
            _ => {
                // one whole character
                let mut q = p + 1;
                while q < self.j.t.len() && self.j.t[q] & 0xc0 == 0x80 {
                    q += 1;
                }
                self.push(I::Text, p, q);
            }
        }
    }

    fn verbatim(&mut self) {
        let p = self.p;
        let run = |mut q: usize| {
            let a = q;
            while self.j.at(q) == Some(b'`') {
                q += 1;
            }
            q - a
        };
        let n = run(p);
        if n > 255 {
            self.push(I::Text, p, p + n);
            return;
        }
        // preceding dollars
        let mut ty = C::Verbatim;
        let mut a = p;
        if let Some(Ev { i: I::Text, a: ta, b }) = self.out.last() {
            if *b == p && *b > *ta && self.at(p - 1) == Some(b'$') {
                // `out` holds one event per character, so look at the text itself; an escaped
                // character is preceded by an escape event
                let text_from = |mut i: usize| {
                    // index of first event of the run of plain text ending at i
                    while i > 0
                        && self.out[i - 1].i == I::Text
                        && self.out[i - 1].b == self.out[i].a
                    {
                        i -= 1;
                    }
                    i
                };
                let last = self.out.len() - 1;
                let first = text_from(last);
                let escaped =
                    |i: usize| i == first && i > 0 && self.out[i - 1].i == I::Escape;
                if !escaped(last) {
                    ty = C::Math(false);
                    a = p - 1;
                    if last > first && self.j.t[p - 2] == b'$' && !escaped(last - 1) {
                        ty = C::Math(true);
                        a = p - 2;
                    }
                }
            }
        }
        for _ in 0..p - a {
            let e = self.out.last_mut().unwrap();
            e.b -= 1;
            if e.a == e.b {
                self.out.pop();
            }
        }
        let open = self.out.len();
        self.push(I::Start(ty.clone(), vec![]), a, p + n);
        // find end
        let content = p + n;
        let mut q = content;
        let close = loop {
            match self.at(q) {
                None => break None,
                Some(b'`') => {
                    let m = run(q);
                    if m == n {
                        break Some(q);
                    }
                    q += m;
                }
                Some(_) => q += 1,
            }
        };
        let t = &self.j.t;
        let mut cb = close.unwrap_or(t.len());
        // leave out whitespace that separates a backtick of the content from the delimiters
        let mut skip = content..content;
        if let Some(first) = (content..cb).find(|i| !ws(t[*i])) {
            if t[first] == b'`' {
                let from = t[content..first]
                    .iter()
                    .rposition(|c| *c == b'\n')
                    .map_or(content, |i| content + i + 1);
                skip = from..first;
            }
            let last = (content..cb).rfind(|i| !ws(t[*i])).unwrap();
            if close.is_some() && t[last] == b'`' {
                cb = last + 1;
            }
        }
        let mut x = content;
        while x < cb {
            if skip.start == x && !skip.is_empty() {
                x = skip.end;
                continue;
            }
            let e = self.j.eol(x).min(cb);
            self.push(I::Text, x, e);
            x = e;
        }
        let Some(q) = close else {
            let end = self.j.t.len();
            self.push(I::End(ty), end, end);
            return;
        };
        let end = q + n;
        let line = &self.j.t[end..self.j.eol(end)];
        if line.starts_with(b"{=") {
            let l = line[2..]
                .iter()
                .position(|c| matches!(c, b'{' | b'}') || ws(*c));
            if let Some(l) = l.filter(|l| *l > 0 && line[2 + l] == b'}') {
                let c = C::Raw(self.j.str(end + 2, end + 2 + l));
                self.out[open].i = I::Start(c.clone(), vec![]);
                self.push(I::End(c), q, end + 3 + l);
                return;
            }
        }
        self.push(I::End(ty), q, end);
        self.attrs_after(open);
    }

    /// Attributes directly after an element that started with the specified event.
    fn attrs_after(&mut self, start: usize) {
        let p = self.p;
        if self.at(p) != Some(b'{') {
            return;
        }
        if self.at(p + 1).is_some_and(|c| delim(c).is_some()) {
            return;
        }
        let Some((end, elems)) = refattr::groups(&self.j.t, p) else {
            return;
        };
        self.p = end;
        let last = self.out.len() - 1;
        match &mut self.out[start].i {
            I::Start(_, e) => {
                *e = elems;
                self.out[last].b = end;
            }
            I::Quote(..) if elems.is_empty() => {}
            I::Quote(..) => self.push(I::WordAttr(elems), p, end),
            I::Text => {
                // [..]{..}
                self.out[last].i = I::End(C::Span);
                self.out[last].b = end;
                let e = &mut self.out[start];
                e.i = I::Start(C::Span, elems);
                if e.b - e.a == 2 {
                    e.a += 1;
                    let ev = Ev {
                        i: I::Text,
                        a: e.a - 1,
                        b: e.a,
                    };
                    self.out.insert(start, ev);
                }
            }
            i => panic!("{i:?}"),
        }
    }

    fn closer(&mut self, k: Kind, marked: bool, len: usize) {
        let p = self.p;
        let matches = |o: &Open| match (o.kind, k) {
            (Kind::Span { .. }, Kind::Span { .. }) => true,
            (Kind::Dest { inline, .. }, Kind::Span { .. }) => !inline,
            (Kind::Dest { inline, .. }, Kind::Dest { .. }) => inline,
            (Kind::Single | Kind::Double, _) => o.kind == k,
            (a, b) => a == b && o.marked == marked,
        };
        if let Some(i) = self.open.iter().rposition(matches) {
            let o = self.open[i];
            let bracket = matches!(o.kind, Kind::Span { .. } | Kind::Dest { .. });
            let empty = !bracket && o.ev == self.out.len() - 1;
            let spaced = p > 0
                && ws(self.j.t[p - 1])
                && (!o.marked || matches!(o.kind, Kind::Single | Kind::Double));
            if !empty && !spaced {
                self.open.truncate(i);
                self.close(o, p, len);
                return;
            }
        }
        match k {
            Kind::Single | Kind::Double | Kind::Strong | Kind::Emph | Kind::Sup | Kind::Sub
                if !marked =>
            {
                self.opener(k, false, len);
            }
            Kind::Single | Kind::Double => {
                self.push(I::Quote(k == Kind::Double, false), p, p + len);
            }
            _ => self.push(I::Text, p, p + len),
        }
    }

    fn close(&mut self, o: Open, p: usize, len: usize) {
        let c = match o.kind {
            Kind::Strong => C::Strong,
            Kind::Emph => C::Emph,
            Kind::Sup => C::Sup,
            Kind::Sub => C::Sub,
            Kind::Mark => C::Mark,
            Kind::Del => C::Del,
            Kind::Ins => C::Ins,
            Kind::Single | Kind::Double => {
                let d = o.kind == Kind::Double;
                self.out[o.ev].i = I::Quote(d, true);
                self.push(I::Quote(d, false), p, p + len);
                self.attrs_after(o.ev);
                return;
            }
            Kind::Span { image } => {
                self.push(I::Text, p, p + 1);
                if let Some(d @ (b'[' | b'(')) = self.at(p + 1) {
                    self.open.push(Open {
                        kind: Kind::Dest {
                            span: o.ev,
                            image,
                            inline: d == b'(',
                        },
                        marked: true,
                        ev: self.out.len(),
                    });
                    self.push(I::Text, p + 1, p + 2);
                } else {
                    self.attrs_after(o.ev);
                }
                return;
            }
            Kind::Dest {
                span,
                image,
                inline,
            } => {
                let from = self.out[o.ev].b;
                let raw = self.j.str(from, p);
                let dest = if from == p && !inline {
                    self.plain(span + 1, o.ev - 1)
                } else {
                    let sep = if inline { "" } else { " " };
                    let parts: Vec<&str> = raw.split('\n').filter(|s| !s.is_empty()).collect();
                    parts.join(sep)
                };
                let c = match (image, inline) {
                    (false, false) => C::RefLink(dest),
                    (false, true) => C::Link(dest),
                    (true, false) => C::RefImage(dest),
                    (true, true) => C::Image(dest),
                };
                self.out[span].i = I::Start(c.clone(), vec![]);
                let a = self.out[o.ev - 1].a;
                self.out.truncate(o.ev - 1);
                self.push(I::End(c), a, p + 1);
                self.attrs_after(span);
                return;
            }
        };
        self.out[o.ev].i = I::Start(c.clone(), vec![]);
        self.push(I::End(c), p, p + len);
        self.attrs_after(o.ev);
    }

    /// Text of events without markup, used as label.
    fn plain(&self, from: usize, to: usize) -> String {
        let mut s = String::new();
        for e in &self.out[from..to] {
            match &e.i {
                I::Soft | I::Hard => s.push(' '),
                I::Escape | I::Start(..) | I::End(..) | I::WordAttr(..) => {}
                _ => s.push_str(&self.j.str(e.a, e.b)),
            }
        }
        s
    }

    fn opener(&mut self, k: Kind, marked: bool, len: usize) {
        let p = self.p;
        let quote = matches!(k, Kind::Single | Kind::Double);
        let next_ws = {
            let e = self.j.eol(p);
            p + len >= e || ws(self.j.t[p + len])
        };
        let prev_ws = p > 0 && ws(self.j.t[p - 1]);
        let after_text = self.out.last().is_some_and(|e| e.i == I::Text) && !prev_ws;
        let ok = !((!marked || quote) && next_ws || k == Kind::Single && after_text);
        if ok {
            self.open.push(Open {
                kind: k,
                marked,
                ev: self.out.len(),
            });
        }
        let i = match k {
            Kind::Single => I::Quote(false, marked),
            Kind::Double => I::Quote(true, marked || ok),
            _ => I::Text,
        };
        self.push(i, p, p + len);
    }
}

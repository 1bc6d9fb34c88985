//! C31: what a block costs does not depend on how many there are before it.
use super::*;
use crate::cov;
use jotdown::Container as C;
use jotdown::Event as E;
use jotdown::Parser;
use jotdown::Render as _;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C31",
        rule: "a short text (of documents as in C01) repeated k and 4k times, k from 16 to 128, each on its own or continuing the block before, with marks in it replaced by the number of the copy: steps (control flow edges) to parse and to render the larger one are at most 4.4 times those of the smaller; without equal headings, more than 8 footnotes, nesting that grows, or a growing text with openers left in it; non-trivial: not excluded, at least 16 copies and 40 events",
        labels: &["headings", "link definitions", "footnotes", "lists", "tables", "attributes", "distinct copies", "one growing block", "long text"],
        gen,
        test,
        relevant: always,
        quick: 24_000,
    }]
}

const MARK: char = '\u{e000}';

fn gen(r: &mut Rng, g: &Guide) -> Case {
    let max = *r.pick(&[20, 60, 200]);
    let mut t = any_doc(r, g);
    // some blocks of the document
    let blocks: Vec<&str> = t.split("\n\n").collect();
    if blocks.len() > 2 {
        let a = r.n(blocks.len());
        let b = a + 1 + r.n(2);
        t = blocks[a..b.min(blocks.len())].join("\n\n");
    }
    if t.len() > max {
        let mut end = max;
        while !t.is_char_boundary(end) {
            end -= 1;
        }
        t.truncate(end);
    }
    let mut t: String = t.replace(MARK, "");
    if r.one(3) {
        t = t.trim_matches('\n').into();
    }
    let mut out = String::new();
    let all = r.one(2);
    for line in t.split_inclusive('\n') {
        let body = line.trim_start();
        let level = body.bytes().take_while(|b| *b == b'#').count();
        if level > 0 && body[level..].starts_with([' ']) {
            let at = line.len() - body.len() + level + 1;
            out += &line[..at];
            out.push(MARK);
            out.push(' ');
            out += &line[at..];
        } else if all && r.one(2) {
            // in some word
            let words: Vec<usize> = line
                .char_indices()
                .filter(|(_, c)| c.is_ascii_alphabetic())
                .map(|x| x.0)
                .collect();
            if words.is_empty() {
                out += line;
            } else {
                let at = *r.pick(&words);
                out += &line[..at];
                out.push(MARK);
                out += &line[at..];
            }
        } else {
            out += line;
        }
    }
    let k = *r.pick(&[16, 32, 64, 128]);
    Case {
        t: vec![out],
        n: vec![k, r.n(2) as u64],
    }
}

fn make(u: &str, k: usize, nl: usize) -> String {
    let mut s = String::new();
    for i in 0..k {
        // letters only, all of the same length
        let id: String = (0..3)
            .map(|d| char::from(b"bcdfghjk"[i >> (6 - 3 * d) & 7]))
            .collect();
        s += &u.replace(MARK, &id);
        s += &"\n".repeat(nl);
    }
    s
}

struct Cost {
    events: usize,
    text_len: usize,
    openers: bool,
    depth: usize,
    parse: u64,
    render: u64,
    skip: bool,
    label: u64,
}

fn cost(s: &str) -> Cost {
    cov::reset(10 * jd::budget(s.len()));
    let mut n = 0;
    let mut depth = 0_usize;
    let mut max = 0;
    // longest paragraph or other text
    let (mut start, mut text_len) = (None, 0);
    for e in Parser::new(s).into_offset_iter() {
        n += 1;
        match e.0 {
            E::Start(c, _) => {
                if is_block(&c) && !is_block_container(&c) {
                    start = Some(e.1.start);
                }
                depth += 1;
                max = max.max(depth);
            }
            E::End(c) => {
                if is_block(&c) && !is_block_container(&c) {
                    text_len = text_len.max(e.1.end.saturating_sub(start.take().unwrap_or(0)));
                }
                depth = depth.saturating_sub(1);
            }
            _ => {}
        }
    }
    let parse = cov::steps();
    let ev: Vec<_> = Parser::new(s).collect();
    cov::reset(10 * jd::budget(s.len()));
    let mut out = String::new();
    let _ = jd::Mode::Minified
        .renderer()
        .push_events(ev.iter().cloned(), &mut out);
    let render = cov::steps();
    let mut label = 0;
    let mut distinct = true;
    // something that may be waiting for its other end
    let mut openers = false;
    let mut texts = std::collections::BTreeSet::new();
    let mut text: Option<String> = None;
    let mut refs = std::collections::BTreeSet::new();

    for e in &ev {
        match e {
            E::Start(C::Heading { .. }, _) => label |= 2,
            E::Start(C::LinkDefinition { .. }, _) => label |= 4,
            E::Start(C::Footnote { .. }, _) => label |= 8,
            E::Start(C::List { .. } | C::DescriptionList, _) => label |= 16,
            E::Start(C::Table, _) => label |= 32,
            E::Start(_, a) if !a.is_empty() => label |= 64,
            E::LeftSingleQuote | E::RightSingleQuote | E::LeftDoubleQuote | E::RightDoubleQuote => {
                openers = true;
            }
            E::FootnoteReference(l) => {
                refs.insert(l.clone());
            }
            _ => {}
        }
        // equal headings: the search for an id that is not taken
        match e {
            E::Start(C::Heading { .. }, _) => text = Some(String::new()),
            E::End(C::Heading { .. }) => {
                let t = text.take().unwrap_or_default();
                distinct &= t.len() >= 3 && texts.insert(t);
            }
            E::Str(s) => {
                openers |= s
                    .bytes()
                    .any(|b| b.is_ascii_punctuation() && b != b'.' && b != b',');
                if let Some(t) = &mut text {
                    t.extend(s.chars().filter(|c| c.is_alphabetic()));
                }
            }
            _ => {}
        }
    }
    Cost {
        events: n,
        depth: max,
        text_len,
        parse,
        render,
        openers,
        skip: !distinct || refs.len() > 8,
        label,
    }
}

fn test(c: &Case) -> Out {
    let (k, nl) = (c.n[0].clamp(1, 128) as usize, 2 - (c.n[1] as usize & 1));
    let u = &c.t[0];
    if u.len() * 4 * k > 60_000 || u.is_empty() {
        return Out::Pass(0);
    }
    let (a, b) = (make(u, k, nl), make(u, 4 * k, nl));
    let x = cost(&a);
    let y = cost(&b);
    let mut label = y.label;
    if u.contains(MARK) {
        label |= 128;
    }
    if nl == 1 {
        label |= 256;
    }
    if y.text_len > x.text_len {
        label |= 512;
    }
    if y.depth != x.depth
        || (y.text_len > x.text_len && y.openers)
        || y.events > 4 * x.events + 10
        || y.events + 10 < 3 * x.events
        || y.skip
    {
        return Out::Pass(0);
    }
    for (what, x, y) in [("parse", x.parse, y.parse), ("render", x.render, y.render)] {
        if y * 10 > (x + 100) * 44 {
            return fail(format!(
                "{what}: {k} copies take {x} steps, {} take {y}, {:.2} times as much",
                4 * k,
                y as f64 / x as f64
            ));
        }
    }
    Out::Pass(label | u64::from(k >= 16 && y.events > 40))
}

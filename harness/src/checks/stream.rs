//! C01-C06: totality, tree, content model, ranges, text, iteration.
use super::*;
use crate::cov;
use crate::refdoc;
use crate::rng;
use crate::tree;
use crate::tree::Tree;
use jotdown::Container;
use jotdown::Container as C;
use jotdown::Event as E;
use jotdown::ListKind;
use jotdown::Parser;
use jotdown::Render;
use std::cell::RefCell;
use std::io::Read;
use std::io::Write;
use std::ops::Range;
use std::process::Child;
use std::process::Command;
use std::process::Stdio;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "documents (structured, token soup, coverage-guided mutation; 1 in 800 is a token run of 1,000 to 70,000 repetitions, on an 8 MB stack) parsed and rendered in all modes and parsed as attributes, with a step budget; 1 in 10 is attribute text only; non-trivial: at least 5 events, or attributes, or an error after the start",
            labels: &["large", "has inline markup", "has nested blocks", "parses as attributes"],
            gen: gen_total,
            test: test_total,
            relevant: always,
            quick: 500_000,
        },
        Prop {
            id: "C02",
            rule: "any documents; non-trivial: at least 3 levels of containers",
            labels: &["blocks", "inline", "over 4 levels"],
            gen: gen_any,
            test: test_tree,
            relevant: always,
            quick: 700_000,
        },
        Prop {
            id: "C03",
            rule: "any documents; non-trivial: at least 3 levels of containers",
            labels: &["list", "table", "description list", "section", "footnote"],
            gen: gen_any,
            test: test_model,
            relevant: always,
            quick: 1_000_000,
        },
        Prop {
            id: "C04",
            rule: "any documents: range invariants, and ranges equal to those of the reference parser where the kinds of events agree; non-trivial: at least 5 events and kinds agree",
            labels: &["kinds differ", "multi-byte", "nested prefix"],
            gen: gen_any,
            test: test_ranges,
            relevant: always,
            quick: 800_000,
        },
        Prop {
            id: "C05",
            rule: "any documents: text events against the source and the reference parser; non-trivial: at least 2 text events",
            labels: &["kinds differ", "multi-byte"],
            gen: gen_any,
            test: test_text,
            relevant: always,
            quick: 800_000,
        },
        Prop {
            id: "C06",
            rule: "any documents with a random point to clone the iterator at; a second build with the deterministic feature gives the same; non-trivial: at least 5 events",
            labels: &["cloned before the end", "has references"],
            gen: gen_iter,
            test: test_iter,
            relevant: always,
            quick: 200_000,
        },
    ]
}

fn gen_any(r: &mut Rng, g: &Guide) -> Case {
    Case::doc(any_doc(r, g))
}

// ---- C01 ----

fn gen_total(r: &mut Rng, g: &Guide) -> Case {
    if r.one(8000) {
        // past the limits of 16-bit counters, where that does not take quadratic time
        let n = *r.pick(&[32767, 32768, 65535, 65536, 65537, 70000]);
        let t = *r.pick(&["#", "a", "|", "a|", "-", "- a\n", "`", ":", "+ a\n\n", "|a|\n", "a\n\n", "x ", "i"]);
        let s = format!("{}{}", r.pick(&["", "|", "a ", "# "]), t.repeat(n));
        return Case {
            t: vec![s],
            n: vec![1],
        };
    }
    if r.one(800) {
        let n = match r.n(8) {
            0..=4 => r.r(500, 2000),
            _ => r.r(2000, 8000),
        };
        let token = |r: &mut Rng| -> String {
            let p = *r.pick(&[
                gen::WORD, gen::DELIM, gen::SMART, gen::VERB, gen::LINK, gen::ATTR, gen::ESC, gen::MISC, gen::RAW,
                gen::WS,
            ]);
            if r.one(3) {
                (*r.pick(&[
                    "# a\n", "- a\n", "|a|\n", "***\n", "a\n\n", "#", "-", "|", "a", "[^a]", "[a][]", "[a]: u\n", "+",
                    "[^a]: b\n", ": a\n", "1. a\n", "{.a}\n", "i", ":", "a. b\n\n", "# a\n## b\n", "```\n", "[](a)", "^ ",
                    "a{.b}", "*a*", "_*", "[![", "\"'", "{=a=}", "`a` ", "$`a`", "<a:b>",
                ]))
                .into()
            } else {
                (*r.pick(p)).into()
            }
        };
        let a = token(r);
        let mut s = String::new();
        if r.one(3) {
            s += r.pick(&["- ", "> ", "|", "# ", "```\n", "[^a]: ", "[", "{", "{a=\"", "`", "::: "]);
        }
        let b = if r.one(3) { token(r) } else { String::new() };
        let limit = 10_000 / (a.len() + b.len()).max(1);
        for _ in 0..n.min(limit) {
            s += &a;
            s += &b;
        }
        if r.one(3) {
            s += &token(r);
        }
        Case {
            t: vec![s],
            n: vec![1],
        }
    } else if r.one(10) {
        Case {
            t: vec![attrs::attr_text(r)],
            n: vec![2],
        }
    } else {
        Case {
            t: vec![any_doc(r, g)],
            n: vec![0],
        }
    }
}

fn total(src: &str) -> Out {
    let ev = jd::events(src);
    if ev.len() > 8 * src.len() + 8 {
        return fail(format!("{} events for {} bytes", ev.len(), src.len()));
    }
    for m in [
        jd::Mode::Default,
        jd::Mode::Minified,
        jd::Mode::Indented("\t".into(), 1),
    ] {
        jd::html(src, &m);
    }
    cov::reset(jd::budget(src.len()));
    let a = Attributes::try_from(src);
    cov::steps();
    let mut l = u64::from(ev.len() >= 5);
    l |= u64::from(src.len() > 2000) << 1;
    l |= u64::from(ev.iter().any(|e| matches!(&e.0, E::Start(c, _) if !is_block(c) && *c != C::Document))) << 2;
    l |= u64::from(ev.iter().any(|e| matches!(&e.0, E::Start(c, _) if is_block_container(c)))) << 3;
    l |= u64::from(a.is_ok()) << 4;
    Out::Pass(l)
}

/// Text of attributes on their own.
fn total_attributes(src: &str) -> Out {
    cov::reset(jd::budget(src.len()));
    let a = Attributes::try_from(src);
    let l = match a {
        Ok(a) => {
            let n = a.iter().filter(|(k, v)| k.key().is_some() && !v.to_string().is_empty()).count();
            let d = a.clone().into_iter().count();
            if d > src.len() + 1 {
                return fail(format!("{d} attributes for {} bytes", src.len()));
            }
            u64::from(n > 0) | 1 << 4
        }
        Err(e) => {
            if e.pos > src.len() {
                return fail(format!("error at {} of {} bytes", e.pos, src.len()));
            }
            u64::from(e.pos > 0)
        }
    };
    cov::steps();
    Out::Pass(l)
}

fn test_total(c: &Case) -> Out {
    let src = c.t[0].as_str();
    if c.n.first() == Some(&2) {
        return total_attributes(src);
    }
    if c.n.first() != Some(&1) || may_nest_deeply(src) {
        return total(src);
    }
    // the stack of a main thread
    std::thread::scope(|sc| {
        let t = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn_scoped(sc, || crate::runner::eval_fn(|| total(src)))
            .unwrap();
        t.join().unwrap()
    })
}

/// Whether there may be so many containers within one another that the known finding applies.
fn may_nest_deeply(src: &str) -> bool {
    src.lines().any(|l| {
        let marker = |w: &&str| w.ends_with(['>', '-', '+', '*', ':', '.', ')', ']']);
        l.split_whitespace().filter(marker).count() > 500
    })
}

/// A known finding: containers nested very deeply exhaust the stack.
pub fn known_nesting() -> i32 {
    let exe = std::env::current_exe().unwrap();
    let st = Command::new(exe)
        .args(["known-one", "C01", "nesting"])
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .expect("run known finding");
    if st.code().is_none() {
        println!("KNOWN-FINDING: property=C01 \"> \" repeated 20000 times overflows an 8 MB stack when parsed");
    } else {
        println!("known finding of C01 no longer fails");
    }
    0
}

pub fn nesting_one() -> i32 {
    let s = "> ".repeat(20000);
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || Parser::new(&s).count())
        .unwrap()
        .join()
        .unwrap();
    0
}

// ---- C02 ----

fn depth(t: &Tree) -> usize {
    match t {
        Tree::Atom(_) => 0,
        Tree::Node { kids, .. } => 1 + kids.iter().map(depth).max().unwrap_or(0),
    }
}

fn test_tree(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let ev = jd::events(src);
    if !matches!(&ev.first(), Some((E::Start(C::Document, a), _)) if a.is_empty()) {
        return fail("does not start with the document");
    }
    if ev.iter().filter(|e| matches!(e.0, E::Start(C::Document, _))).count() != 1 {
        return fail("more than one document");
    }
    let t = match tree::build(&ev) {
        Ok(t) => t,
        Err(e) => return fail(e),
    };
    let mut it = Parser::new(src);
    for _ in 0..ev.len() {
        if it.next().is_none() {
            return fail("plain iterator ends early");
        }
    }
    let mut oi = Parser::new(src).into_offset_iter();
    let mut k = 0;
    while oi.next().is_some() {
        k += 1;
        if k > ev.len() {
            return fail("offset iterator goes on");
        }
    }
    for _ in 0..4 {
        if it.next().is_some() || oi.next().is_some() {
            return fail("more events after the end");
        }
    }
    let d = depth(&t);
    let mut l = u64::from(d >= 3);
    l |= u64::from(ev.iter().any(|e| matches!(&e.0, E::Start(c, _) if is_block_container(c)))) << 1;
    l |= u64::from(ev.iter().any(|e| matches!(&e.0, E::Start(c, _) if !is_block(c) && *c != C::Document))) << 2;
    l |= u64::from(d > 4) << 3;
    Out::Pass(l)
}

// ---- C03 ----

fn is_text_only(c: &Container) -> bool {
    matches!(
        c,
        C::CodeBlock { .. }
            | C::RawBlock { .. }
            | C::RawInline { .. }
            | C::Verbatim
            | C::Math { .. }
            | C::LinkDefinition { .. }
    )
}

fn is_leaf(c: &Container) -> bool {
    is_block(c) && !is_block_container(c) && !is_text_only(c)
}

fn is_inline(c: &Container) -> bool {
    !is_block(c) && *c != C::Document
}

/// Whether `k` may be a direct child of `c`.
fn allowed(c: &Container, k: &Container) -> bool {
    match c {
        _ if is_text_only(c) => false,
        _ if is_inline(c) || is_leaf(c) => is_inline(k),
        C::List { kind, .. } => match kind {
            ListKind::Task(..) => matches!(k, C::TaskListItem { .. }),
            _ => matches!(k, C::ListItem),
        },
        C::DescriptionList => matches!(k, C::DescriptionTerm | C::DescriptionDetails),
        C::Table => matches!(k, C::TableRow { .. } | C::Caption),
        C::TableRow { head } => matches!(k, C::TableCell { head: h, .. } if h == head),
        _ => {
            // general block containers
            is_block(k)
                && !matches!(
                    k,
                    C::ListItem
                        | C::TaskListItem { .. }
                        | C::DescriptionTerm
                        | C::DescriptionDetails
                        | C::TableRow { .. }
                        | C::TableCell { .. }
                        | C::Caption
                )
                && match k {
                    C::Section { .. } => matches!(c, C::Document | C::Section { .. }),
                    C::Heading { has_section, .. } => *has_section == matches!(c, C::Section { .. }),
                    _ => true,
                }
        }
    }
}

fn allowed_atom(c: &Container, e: &Event) -> bool {
    match c {
        _ if is_text_only(c) => matches!(e, E::Str(_)),
        _ if is_inline(c) || is_leaf(c) => !matches!(e, E::Blankline | E::ThematicBreak(_)),
        C::TableRow { .. } => false,
        C::List { .. } | C::DescriptionList | C::Table => matches!(e, E::Blankline | E::Attributes(_)),
        _ => matches!(e, E::Blankline | E::Attributes(_) | E::ThematicBreak(_)),
    }
}

fn check_model(t: &Tree, level: u16) -> Result<(), String> {
    let Tree::Node { c, kids, .. } = t else {
        return Ok(());
    };
    if c.is_block() != is_block(c) || c.is_block_container() != is_block_container(c) {
        return Err(format!(
            "{c:?}: is_block {}, is_block_container {}",
            c.is_block(),
            c.is_block_container()
        ));
    }
    let mut level = level;
    if let C::Section { id } = c {
        match kids.first() {
            Some(Tree::Node {
                c:
                    C::Heading {
                        level: l,
                        has_section: true,
                        id: i,
                    },
                ..
            }) if i == id => {
                if *l <= level {
                    return Err(format!("section of level {l} in section of level {level}"));
                }
                level = *l;
            }
            _ => return Err(format!("{c:?} does not start with its heading")),
        }
    }
    for (i, k) in kids.iter().enumerate() {
        match k {
            Tree::Node { c: k, .. } => {
                if !allowed(c, k) {
                    return Err(format!("{k:?} in {c:?}"));
                }
                if i > 0 && matches!(k, C::Caption) {
                    return Err("caption is not first in table".into());
                }
                if i > 0 && matches!(k, C::Heading { has_section: true, .. }) {
                    return Err("heading with section within other section".into());
                }
            }
            Tree::Atom(e) => {
                if !allowed_atom(c, e) {
                    return Err(format!("{e:?} in {c:?}"));
                }
            }
        }
        check_model(k, level)?;
    }
    let count = |f: fn(&Container) -> bool| {
        kids.iter()
            .filter(|k| matches!(k, Tree::Node { c, .. } if f(c)))
            .count()
    };
    match c {
        C::List { .. } if count(|_| true) == 0 => return Err("empty list".into()),
        C::TableRow { .. } if kids.is_empty() => return Err("row without cells".into()),
        C::DescriptionList => {
            let k: Vec<bool> = kids
                .iter()
                .filter_map(|k| match k {
                    Tree::Node { c, .. } => Some(matches!(c, C::DescriptionTerm)),
                    Tree::Atom(_) => None,
                })
                .collect();
            if k.is_empty() || k.iter().enumerate().any(|(i, t)| *t != (i % 2 == 0)) || k.len() % 2 == 1 {
                return Err("terms and details do not alternate".into());
            }
        }
        _ => {}
    }
    Ok(())
}

fn test_model(c: &Case) -> Out {
    let ev = jd::events(&c.t[0]);
    let t = match tree::build(&ev) {
        Ok(t) => t,
        Err(e) => return fail(e),
    };
    if let Err(e) = check_model(&t, 0) {
        return fail(e);
    }
    let has = |f: fn(&Container) -> bool| u64::from(ev.iter().any(|e| matches!(&e.0, E::Start(c, _) if f(c))));
    let mut l = u64::from(depth(&t) >= 3);
    l |= has(|c| matches!(c, C::List { .. })) << 1;
    l |= has(|c| matches!(c, C::Table)) << 2;
    l |= has(|c| matches!(c, C::DescriptionList)) << 3;
    l |= has(|c| matches!(c, C::Section { .. })) << 4;
    l |= has(|c| matches!(c, C::Footnote { .. })) << 5;
    Out::Pass(l)
}

// ---- C04 ----

pub fn kind(e: &Event) -> (u8, Option<std::mem::Discriminant<Container<'static>>>) {
    fn d(c: &Container) -> Option<std::mem::Discriminant<Container<'static>>> {
        // discriminants do not depend on the lifetime
        Some(unsafe {
            std::mem::transmute::<
                std::mem::Discriminant<Container<'_>>,
                std::mem::Discriminant<Container<'static>>,
            >(std::mem::discriminant(c))
        })
    }
    match e {
        E::Start(c, _) => (0, d(c)),
        E::End(c) => (1, d(c)),
        E::Str(_) => (2, None),
        E::FootnoteReference(_) => (3, None),
        E::Symbol(_) => (4, None),
        E::LeftSingleQuote => (5, None),
        E::RightSingleQuote => (6, None),
        E::LeftDoubleQuote => (7, None),
        E::RightDoubleQuote => (8, None),
        E::Ellipsis => (9, None),
        E::EnDash => (10, None),
        E::EmDash => (11, None),
        E::NonBreakingSpace => (12, None),
        E::Softbreak => (13, None),
        E::Hardbreak => (14, None),
        E::Escape => (15, None),
        E::Blankline => (16, None),
        E::ThematicBreak(_) => (17, None),
        E::Attributes(_) => (18, None),
    }
}

fn same_kinds(a: &[jd::Ev], r: &[refdoc::Ev]) -> bool {
    a.len() == r.len() && a.iter().zip(r).all(|(x, y)| kind(&x.0) == kind(&y.0))
}

fn range_ok(src: &str, r: &Range<usize>) -> bool {
    r.start <= r.end && r.end <= src.len() && src.is_char_boundary(r.start) && src.is_char_boundary(r.end)
}

/// Characters that may lie outside of all events.
fn may_be_uncovered(c: char) -> bool {
    c.is_ascii_whitespace() || matches!(c, '>' | '#' | '^')
}

/// Whether a line may be a separator between the rows of a table.
fn in_separator(src: &str, i: usize) -> bool {
    let start = src[..i].rfind(['\n']).map_or(0, |k| k + 1);
    let end = src[i..].find('\n').map_or(src.len(), |k| i + k);
    // the line may start with markers of containers
    src[start..i + 1].match_indices('|').any(|(k, _)| {
        src[start + k..end].chars().all(|c| matches!(c, '|' | '-' | ':') || c.is_whitespace())
    })
}

/// Whether at a brace of `{}`, which stands for nothing.
fn in_empty_group(src: &str, i: usize) -> bool {
    let skip = |c: &char| !(c.is_whitespace() || matches!(c, '>' | '#'));
    if src[i..].starts_with('{') {
        src[i + 1..].chars().find(skip) == Some('}')
    } else {
        src[i..].starts_with('}') && src[..i].chars().rev().find(skip) == Some('{')
    }
}

fn test_ranges(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let ev = jd::events(src);
    let mut covered = vec![false; src.len()];
    // start, latest end of content
    let mut stack: Vec<(usize, &Container)> = Vec::new();
    let mut at = 0;
    for (i, (e, r)) in ev.iter().enumerate() {
        if !range_ok(src, r) {
            return fail(format!("event {i} {e:?}: invalid range {r:?}"));
        }
        covered[r.clone()].fill(true);
        if matches!(e, E::End(C::Caption)) {
            // the rows come before in the source
            at = stack[stack.len() - 2].0;
            stack.pop();
            continue;
        }
        if matches!(e, E::Start(C::Caption, _)) {
            stack.push((r.start, &C::Caption));
            at = r.end;
            continue;
        }
        if r.start < at {
            // the end of a table comes after its caption
            return fail(format!("event {i} {e:?} at {r:?}: overlaps or precedes earlier event that ends at {at}"));
        }
        at = r.end;
        match e {
            E::Start(c, _) => stack.push((r.start, c)),
            E::End(_) => {
                let Some((s, _)) = stack.pop() else {
                    return fail("not balanced");
                };
                if r.end < s {
                    return fail(format!("event {i} {e:?} at {r:?}: ends before its start"));
                }
            }
            _ => {}
        }
    }
    for (i, c) in src.char_indices() {
        if !may_be_uncovered(c) && !covered[i] && !(matches!(c, '|' | '-' | ':') && in_separator(src, i))
            && !in_empty_group(src, i)
        {
            return fail(format!("{c:?} at {i} is in the range of no event"));
        }
    }
    let d = refdoc::parse(src);
    let same = same_kinds(&ev, &d.events);
    if same {
        for (i, ((e, r), (_, x))) in ev.iter().zip(&d.events).enumerate() {
            if r != x && !d.alt.get(&i).is_some_and(|v| v.iter().any(|y| *r == y.1)) {
                return fail(format!(
                    "event {i} {e:?}: range {r:?} {:?}, expected {x:?} {:?}",
                    &src[r.clone()],
                    &src[x.clone()]
                ));
            }
        }
    }
    let mut l = u64::from(ev.len() >= 5 && same);
    l |= u64::from(!same) << 1;
    l |= u64::from(!src.is_ascii()) << 2;
    l |= u64::from(src.contains("\n> ") || src.contains("\n  ")) << 3;
    Out::Pass(l)
}

// ---- C05 ----

fn test_text(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let ev = jd::events(src);
    let mut inside = vec![0u8; src.len()];
    let mut strs = 0;
    for (i, (e, r)) in ev.iter().enumerate() {
        if let E::Str(s) = e {
            strs += 1;
            if s.is_empty() {
                return fail(format!("event {i}: empty text"));
            }
            if src.get(r.clone()) != Some(s.as_ref()) {
                return fail(format!(
                    "event {i}: text {s:?} but {:?} in source at {r:?}",
                    src.get(r.clone())
                ));
            }
            if s.as_ptr() != src[r.clone()].as_ptr() {
                return fail(format!("event {i}: text {s:?} is not borrowed from the source"));
            }
            for b in &mut inside[r.clone()] {
                if *b & 1 != 0 {
                    return fail(format!("event {i}: text {s:?} at {r:?} appears twice"));
                }
                *b |= 1;
            }
        } else if let Some(v) = inside.get_mut(r.clone()) {
            for b in v {
                *b |= 2;
            }
            // delimiters of these are never text
            if matches!(
                e,
                E::Start(
                    C::Emphasis
                        | C::Strong
                        | C::Mark
                        | C::Insert
                        | C::Delete
                        | C::Superscript
                        | C::Subscript
                        | C::Span
                        | C::Verbatim
                        | C::Blockquote,
                    _
                )
            ) && src[r.clone()].chars().any(char::is_alphanumeric)
                && !src[r.clone()].contains('{')
            {
                return fail(format!("event {i} {e:?}: range covers text {:?}", &src[r.clone()]));
            }
        }
    }
    for (i, c) in src.char_indices() {
        if c.is_alphanumeric() && inside[i] == 0 {
            return fail(format!("{c:?} at {i} is lost"));
        }
        if inside[i] == 3 {
            return fail(format!("{c:?} at {i} is both text and markup"));
        }
    }
    let d = refdoc::parse(src);
    let same = same_kinds(&ev, &d.events);
    if same {
        for (i, (x, y)) in ev.iter().zip(&d.events).enumerate() {
            if matches!(x.0, E::Str(_)) && x.0 != y.0 {
                return fail(format!("event {i}: {:?}, expected {:?}", x.0, y.0));
            }
        }
    } else {
        // only text may be at stake, not what is markup
        let text = |v: &[Event]| {
            v.iter()
                .all(|e| matches!(e, E::Str(_) | E::Escape | E::Softbreak | E::Blankline))
        };
        if let Some(x) = diff(&ev, &d, false) {
            if text(&x.a) && text(&x.r) {
                return fail(x.msg);
            }
        }
    }
    let mut l = u64::from(strs >= 2);
    l |= u64::from(!same) << 1;
    l |= u64::from(!src.is_ascii()) << 2;
    Out::Pass(l)
}

// ---- C06 ----

fn gen_iter(r: &mut Rng, g: &Guide) -> Case {
    Case {
        t: vec![any_doc(r, g)],
        n: vec![if r.one(2) { r.n(40) as u64 } else { r.u64() >> 8 }],
    }
}

fn digest(src: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325;
    for (e, r) in jd::events(src) {
        h = rng::fnv(format!("{e:?} {r:?}").as_bytes(), h);
    }
    rng::fnv(jd::html(src, &jd::Mode::Default).as_bytes(), h)
}

/// Answers with digests of the documents it is sent: run from the build with the feature.
pub fn det_server() {
    let mut i = std::io::stdin().lock();
    let mut o = std::io::stdout().lock();
    let mut n = [0u8; 8];
    while i.read_exact(&mut n).is_ok() {
        let mut b = vec![0u8; u64::from_le_bytes(n) as usize];
        i.read_exact(&mut b).unwrap();
        let d = digest(std::str::from_utf8(&b).unwrap());
        o.write_all(&d.to_le_bytes()).unwrap();
        o.flush().unwrap();
    }
}

thread_local! {
    static SERVER: RefCell<Option<Child>> = const { RefCell::new(None) };
}

fn det_digest(src: &str) -> Option<Result<u64, String>> {
    let exe = std::env::var_os("HARNESS_DET")?;
    SERVER.with(|s| {
        let mut s = s.borrow_mut();
        if s.is_none() {
            *s = Some(
                Command::new(exe)
                    .arg("det-server")
                    .stdin(Stdio::piped())
                    .stdout(Stdio::piped())
                    .stderr(Stdio::null())
                    .spawn()
                    .expect("start build with feature deterministic"),
            );
        }
        let mut ask = || -> std::io::Result<u64> {
            let c = s.as_mut().unwrap();
            let i = c.stdin.as_mut().unwrap();
            let mut b = (src.len() as u64).to_le_bytes().to_vec();
            b.extend_from_slice(src.as_bytes());
            i.write_all(&b)?;
            i.flush()?;
            let mut d = [0u8; 8];
            c.stdout.as_mut().unwrap().read_exact(&mut d)?;
            Ok(u64::from_le_bytes(d))
        };
        Some(ask().map_err(|e| {
            if let Some(mut c) = s.take() {
                let _ = c.kill();
                let _ = c.wait();
            }
            format!("build with feature deterministic dies: {e}")
        }))
    })
}

fn test_iter(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let ev = jd::events(src);
    let again = jd::events(src);
    if ev != again {
        return fail("events of a second parse differ");
    }
    let plain: Vec<Event> = Parser::new(src).collect();
    if plain.len() != ev.len() || plain.iter().zip(&ev).any(|(a, b)| *a != b.0) {
        return fail("plain iterator and offset iterator differ");
    }
    // clone in the middle, continue in both orders
    let at = c.n.first().copied().unwrap_or(0) as usize % (ev.len() + 1);
    let mut p = Parser::new(src);
    for _ in 0..at {
        p.next();
    }
    let q = p.clone();
    let one = p.next();
    let rest_q: Vec<Event> = q.collect();
    let rest_p: Vec<Event> = one.into_iter().chain(p).collect();
    if rest_q != plain[at..] {
        return fail(format!("clone after {at} events differs"));
    }
    if rest_p != plain[at..] {
        return fail(format!("original differs after being cloned after {at} events"));
    }
    if let Err(e) = iterator(|| Parser::new(src), &plain, at) {
        return fail(e);
    }
    if let Err(e) = iterator(|| Parser::new(src).into_offset_iter(), &ev, at) {
        return fail(format!("with offsets: {e}"));
    }
    // switch to offsets in the middle
    let mut p = Parser::new(src);
    for _ in 0..at {
        p.next();
    }
    let rest: Vec<jd::Ev> = p.into_offset_iter().collect();
    if rest != ev[at..] {
        return fail(format!("offset iterator made after {at} events differs"));
    }
    for m in [jd::Mode::Default, jd::Mode::Minified] {
        let direct = jd::html(src, &m);
        let later = jd::render(src.len(), plain.clone().into_iter(), &m);
        if direct != later {
            return fail("rendering of collected events differs");
        }
        let mut out = String::new();
        let mut r = m.renderer();
        let (x, y) = plain.split_at(at);
        r.push_events(x.iter().cloned(), &mut out).unwrap();
        r.push_events(y.iter().cloned(), &mut out).unwrap();
        if out != direct {
            return fail("rendering in two parts differs");
        }
    }
    if let Some(d) = det_digest(src) {
        match d {
            Err(e) => return fail(e),
            Ok(d) if d != digest(src) => return fail("build with feature deterministic differs"),
            Ok(_) => {}
        }
    }
    let mut l = u64::from(ev.len() >= 5);
    l |= u64::from(at < ev.len()) << 1;
    l |= u64::from(src.contains("][")) << 2;
    Out::Pass(l)
}

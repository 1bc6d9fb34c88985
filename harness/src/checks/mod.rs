//! The checks, one `Prop` per property.
use crate::case::Case;
use crate::gen;
use crate::gen::Focus;
use crate::gen::Pool;
use crate::jd;
use crate::refdoc;
use crate::rng::Rng;
use crate::runner::Guide;
use crate::runner::Out;
use crate::runner::Prop;
use jotdown::Attributes;
use jotdown::Container;
use jotdown::Event;

pub mod attrs;
pub mod cli;
pub mod compose;
pub mod construct;
pub mod cost;
pub mod derive;
pub mod html;
pub mod sinks;
pub mod stream;

pub fn all() -> Vec<Prop> {
    let mut v = Vec::new();
    v.extend(stream::props());
    v.extend(construct::props());
    v.extend(attrs::props());
    v.extend(cost::props());
    v.extend(compose::props());
    v.extend(html::props());
    v.extend(derive::props());
    v.extend(sinks::props());
    v.extend(cli::props());
    v.sort_by_key(|p| p.id);
    v
}

/// One in so many documents is larger than 64 KiB.
const BIG: usize = 2500;

/// A document, in a few cases with all its line breaks as CR LF or its spaces as tabs.
pub fn doc(r: &mut Rng, g: &Guide, focus: Focus, pools: &[Pool]) -> String {
    let t = doc_plain(r, g, focus, pools);
    if r.one(60) {
        return t.replace("\r\n", "\n").replace('\n', "\r\n");
    }
    if r.one(200) {
        return t.replace(' ', "\t");
    }
    t
}

/// A document: structured, token soup or mutation of something that reached new code.
fn doc_plain(r: &mut Rng, g: &Guide, focus: Focus, pools: &[Pool]) -> String {
    if r.one(400) {
        return gen::many(r, focus);
    }
    if r.one(300) {
        return gen::nested(r, focus);
    }
    if r.one(BIG) {
        return gen::big(r, focus);
    }
    match r.n(20) {
        0..=6 => gen::Doc::make(r, focus),
        7..=13 => gen::soup(r, pools),
        _ => {
            let a = g.pick(r).to_string();
            let b = g.pick(r).to_string();
            gen::mutate(r, &a, &b, pools)
        }
    }
}

/// Any document at all.
pub fn any_doc(r: &mut Rng, g: &Guide) -> String {
    let first = *r.pick(gen::ALL);
    let mut pools: Vec<Pool> = gen::ALL.to_vec();
    pools.push(first);
    let k = pools.len() - 1;
    pools.swap(0, k);
    let focus = if r.one(3) {
        *r.pick(&[
            Focus::List,
            Focus::Desc,
            Focus::Table,
            Focus::Foot,
            Focus::Head,
            Focus::Code,
            Focus::Div,
            Focus::Link,
            Focus::Attr,
        ])
    } else {
        Focus::Any
    };
    doc(r, g, focus, &pools)
}

/// Where two event sequences differ: what remains without the common start and end.
pub struct Diff<'s> {
    pub msg: String,
    pub a: Vec<Event<'s>>,
    pub r: Vec<Event<'s>>,
}

pub fn strip<'s>(e: &Event<'s>) -> Event<'s> {
    match e {
        Event::Start(c, _) => Event::Start(c.clone(), Attributes::new()),
        Event::ThematicBreak(_) => Event::ThematicBreak(Attributes::new()),
        Event::Attributes(_) => Event::Attributes(Attributes::new()),
        e => e.clone(),
    }
}

/// Events of the implementation (a) against those of the reference model.
pub fn diff<'s>(a: &[jd::Ev<'s>], d: &refdoc::Doc, attrs: bool) -> Option<Diff<'s>> {
    let r = &d.events;
    let same = |i: usize, j: usize| {
        let eq = |x: &Event, y: &Event| if attrs { x == y } else { strip(x) == strip(y) };
        eq(&a[i].0, &r[j].0)
            || d.alt
                .get(&j)
                .is_some_and(|v| v.iter().any(|y| eq(&a[i].0, &y.0)))
    };
    let mut p = 0;
    while p < a.len() && p < r.len() && same(p, p) {
        p += 1;
    }
    if p == a.len() && p == r.len() {
        return None;
    }
    let mut s = 0;
    while s < a.len() - p && s < r.len() - p && same(a.len() - 1 - s, r.len() - 1 - s) {
        s += 1;
    }
    let aw: Vec<Event<'s>> = a[p..a.len() - s].iter().map(|e| e.0.clone()).collect();
    let rw: Vec<Event<'s>> = r[p..r.len() - s].iter().map(|e| e.0.clone()).collect();
    let list = |v: &[Event]| {
        let mut s = String::new();
        for e in v.iter().take(12) {
            s += &format!("    {e:?}\n");
        }
        if v.len() > 12 {
            s += "    ...\n";
        }
        s
    };
    Some(Diff {
        msg: format!(
            "events differ from the reference parse, from event {p}:\n  actual:\n{}  expected:\n{}",
            list(&aw),
            list(&rw)
        ),
        a: aw,
        r: rw,
    })
}

/// Compare with the reference parser.
pub fn against_model(src: &str, attrs: bool) -> (Vec<jd::Ev<'_>>, Option<Diff<'_>>) {
    let a = jd::events(src);
    let d = refdoc::parse(src);
    let x = diff(&a, &d, attrs);
    (a, x)
}

pub fn fail(msg: impl Into<String>) -> Out {
    Out::Fail(msg.into())
}

pub fn always(_: &Case) -> bool {
    true
}

/// Known findings of a property: prints a line for each that still fails. Exit code.
pub fn known(id: &str) -> i32 {
    if id == "C01" {
        return stream::known_nesting();
    }
    if id == "C21" {
        return compose::known_fence();
    }
    0
}

pub fn known_one(what: &str) -> i32 {
    match what {
        "nesting" => stream::nesting_one(),
        _ => 2,
    }
}

/// However an iterator is consumed, it yields what it yields to a loop: `want`.
pub fn iterator<I, T>(make: impl Fn() -> I, want: &[T], at: usize) -> Result<(), String>
where
    I: Iterator<Item = T>,
    T: PartialEq + std::fmt::Debug,
{
    let n = want.len();
    let at = at % (n + 1);
    let mut it = make();
    for i in [0, at] {
        let (lo, hi) = it.size_hint();
        if i <= n && (lo > n - i || hi.is_some_and(|hi| hi < n - i)) {
            return Err(format!("size hint ({lo}, {hi:?}) with {} items to come", n - i));
        }
        if i == 0 {
            it.by_ref().take(at).for_each(drop);
        }
    }
    let mut it = make();
    if it.nth(at).as_ref() != want.get(at) {
        return Err(format!("nth({at}) is not the item after {at} others"));
    }
    if at < n && !it.by_ref().zip(&want[at + 1..]).all(|(x, y)| x == *y) {
        return Err(format!("items after nth({at}) are not those after {}", at + 1));
    }
    if make().count() != n {
        return Err(format!("count is {}, not {n}", make().count()));
    }
    if make().last().as_ref() != want.last() {
        return Err("last is not the last item".into());
    }
    let mut i = 0;
    let same = make().fold(true, |ok, x| {
        i += 1;
        ok && want.get(i - 1) == Some(&x)
    });
    if !same || i != n {
        return Err("fold sees other items".into());
    }
    let mut i = at;
    if !make().skip(at).all(|x| {
        i += 1;
        want.get(i - 1) == Some(&x)
    }) || i != n
    {
        return Err(format!("items after skip({at}) differ"));
    }
    let k = at % 5 + 1;
    let mut i = 0;
    for x in make().step_by(k) {
        if want.get(i) != Some(&x) {
            return Err(format!("items of step_by({k}) differ"));
        }
        i += k;
    }
    let found = make().position(|x| want.get(at) == Some(&x));
    if found != want.iter().position(|x| want.get(at) == Some(x)) {
        return Err("position of an item differs".into());
    }
    Ok(())
}

/// Blocks that hold blocks, as told by their documentation and not by the library.
pub fn is_block_container(c: &Container) -> bool {
    matches!(
        c,
        Container::Blockquote
            | Container::List { .. }
            | Container::ListItem
            | Container::TaskListItem { .. }
            | Container::DescriptionList
            | Container::DescriptionDetails
            | Container::Footnote { .. }
            | Container::Table
            | Container::TableRow { .. }
            | Container::Section { .. }
            | Container::Div { .. }
    )
}

pub fn is_block(c: &Container) -> bool {
    is_block_container(c)
        || matches!(
            c,
            Container::Paragraph
                | Container::Heading { .. }
                | Container::TableCell { .. }
                | Container::Caption
                | Container::DescriptionTerm
                | Container::LinkDefinition { .. }
                | Container::RawBlock { .. }
                | Container::CodeBlock { .. }
        )
}

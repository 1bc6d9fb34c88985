//! Event stream as a tree.
use jotdown::Attributes;
use jotdown::Container;
use jotdown::Event;
use std::ops::Range;

pub enum Tree<'e, 's> {
    Node {
        c: &'e Container<'s>,
        attrs: &'e Attributes<'s>,
        kids: Vec<Tree<'e, 's>>,
    },
    Atom(&'e Event<'s>),
}

/// Err if the events are not balanced.
pub fn build<'e, 's>(events: &'e [(Event<'s>, Range<usize>)]) -> Result<Tree<'e, 's>, String> {
    let mut stack: Vec<(&Container, &Attributes, Vec<Tree>)> = Vec::new();
    for (i, (e, _)) in events.iter().enumerate() {
        match e {
            Event::Start(c, a) => {
                if stack.is_empty() && i != 0 {
                    return Err(format!("event {i} {e:?}: outside the document"));
                }
                stack.push((c, a, Vec::new()));
            }
            Event::End(c) => {
                let Some((s, a, kids)) = stack.pop() else {
                    return Err(format!("event {i} {e:?}: nothing to end"));
                };
                if s != c {
                    return Err(format!("event {i} {e:?}: ends {s:?}"));
                }
                let n = Tree::Node {
                    c: s,
                    attrs: a,
                    kids,
                };
                match stack.last_mut() {
                    Some(p) => p.2.push(n),
                    None if i + 1 == events.len() => return Ok(n),
                    None => return Err(format!("event {i} {e:?}: document ends before last event")),
                }
            }
            e => match stack.last_mut() {
                Some(p) => p.2.push(Tree::Atom(e)),
                None => return Err(format!("event {i} {e:?}: outside the document")),
            },
        }
    }
    Err(format!("{} containers not ended", stack.len()))
}

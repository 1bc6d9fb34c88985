//! Entry points of the code under test, each with a budget of steps: going over it means that
//! the code does not terminate in any reasonable time.
use crate::cov;
use jotdown::html::Indentation;
use jotdown::html::Renderer;
use jotdown::Event;
use jotdown::Parser;
use jotdown::Render;
use std::ops::Range;

pub type Ev<'s> = (Event<'s>, Range<usize>);

pub fn budget(len: usize) -> u64 {
    let l = len as u64;
    2_000_000 + 10_000 * l + 40 * l * l
}

pub fn events(src: &str) -> Vec<Ev<'_>> {
    cov::reset(budget(src.len()));
    let mut out = Vec::new();
    for e in Parser::new(src).into_offset_iter() {
        out.push(e);
        // unbounded output is caught before memory runs out
        assert!(
            out.len() <= 20 * src.len() + 100,
            "more than {} events for {} bytes",
            out.len(),
            src.len()
        );
    }
    cov::steps();
    out
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Mode {
    Default,
    Minified,
    Indented(String, usize),
}

impl Mode {
    pub fn renderer<'s>(&self) -> Renderer<'s> {
        match self {
            Mode::Default => Renderer::default(),
            Mode::Minified => Renderer::minified(),
            // what equals the default is left to it
            Mode::Indented(string, initial_level) => {
                let mut i = Indentation::default();
                if string != "\t" {
                    i.string.clone_from(string);
                }
                if *initial_level != 0 {
                    i.initial_level = *initial_level;
                }
                Renderer::indented(i)
            }
        }
    }
}

pub fn render<'s>(len: usize, events: impl Iterator<Item = Event<'s>>, mode: &Mode) -> String {
    cov::reset(10 * budget(len));
    let mut out = String::new();
    mode.renderer()
        .push_events(events, &mut out)
        .expect("writing to string");
    cov::steps();
    out
}

pub fn html(src: &str, mode: &Mode) -> String {
    render(src.len(), Parser::new(src), mode)
}

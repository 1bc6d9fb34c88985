//! C26: sinks of all kinds, with injected faults.
use super::*;
use crate::jd::Mode;
use jotdown::Parser;
use jotdown::Render;
use std::fmt;
use std::io;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C26",
        rule: "any documents and modes, each rendered to fmt and io sinks that split, interrupt or fail writes; a failure is injected at every write (documents of up to 60 writes) or at random ones and at random byte offsets; non-trivial: at least 3 writes and a fault injected",
        labels: &["every write failed once", "short writes", "indented", "multi-byte"],
        gen: |r, g| Case {
            t: vec![any_doc(r, g)],
            n: vec![r.n(3) as u64, r.u64() >> 8],
        },
        test,
        relevant: always,
        quick: 80_000,
    }]
}

/// Fails at the nth write, and remembers what comes after.
struct FmtSink {
    out: String,
    writes: usize,
    fail_at: Option<usize>,
    failed: bool,
    after: usize,
}

impl FmtSink {
    fn new(fail_at: Option<usize>) -> Self {
        FmtSink {
            out: String::new(),
            writes: 0,
            fail_at,
            failed: false,
            after: 0,
        }
    }
}

impl fmt::Write for FmtSink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed {
            self.after += 1;
            return Err(fmt::Error);
        }
        if self.fail_at == Some(self.writes) {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.writes += 1;
        self.out.push_str(s);
        Ok(())
    }
}

/// Accepts few bytes at once, interrupts, and fails after a number of bytes or writes.
struct IoSink {
    out: Vec<u8>,
    chunk: usize,
    interrupt: bool,
    tick: usize,
    writes: usize,
    fail_write: Option<usize>,
    limit: Option<usize>,
    kind: Option<io::ErrorKind>,
    failed: bool,
    after: usize,
}

impl IoSink {
    fn new(chunk: usize, interrupt: bool) -> Self {
        IoSink {
            out: Vec::new(),
            chunk,
            interrupt,
            tick: 0,
            writes: 0,
            fail_write: None,
            limit: None,
            kind: None,
            failed: false,
            after: 0,
        }
    }
}

impl io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after += 1;
            return Err(io::Error::from(io::ErrorKind::Other));
        }
        self.tick += 1;
        if self.interrupt && self.tick % 3 == 1 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.fail_write == Some(self.writes) || self.limit == Some(self.out.len()) && !b.is_empty() {
            self.failed = true;
            return match self.kind {
                Some(k) => Err(io::Error::new(k, "injected")),
                None => Ok(0),
            };
        }
        self.writes += 1;
        let mut n = b.len().min(self.chunk);
        if let Some(l) = self.limit {
            n = n.min(l - self.out.len());
        }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A renderer of its own, which only writes what it is given, in several ways, and may fail.
struct Dump<'s> {
    seen: Vec<Event<'s>>,
    fail_at: Option<usize>,
}

impl<'s> Render<'s> for Dump<'s> {
    fn push_event<W: fmt::Write>(&mut self, e: Event<'s>, mut out: W) -> fmt::Result {
        match self.seen.len() % 3 {
            0 => write!(out, "{e:?}")?,
            1 => format!("{e:?}").chars().try_for_each(|c| out.write_char(c))?,
            _ => out.write_str(&format!("{e:?}"))?,
        }
        let n = self.seen.len();
        self.seen.push(e);
        if self.fail_at == Some(n) {
            return Err(fmt::Error);
        }
        out.write_str("é\n")
    }
}

/// The provided methods of the trait pass every event on once, in order, until one fails.
fn custom(p: &Parser, r: &mut Rng) -> Result<(), String> {
    let evs: Vec<Event> = p.clone().collect();
    let fail_at = (r.one(2)).then(|| r.n(evs.len()));
    let n = fail_at.map_or(evs.len(), |n| n + 1);
    let mut want = String::new();
    for (i, e) in evs[..n].iter().enumerate() {
        want += &format!("{e:?}");
        if fail_at != Some(i) {
            want += "é\n";
        }
    }
    let new = || Dump {
        seen: Vec::new(),
        fail_at,
    };
    let judge = |how: &str, d: Dump, ok: bool, out: &[u8]| {
        if d.seen != evs[..n] {
            return Err(format!("{how}: a renderer gets other events, or not all, or more after an error"));
        }
        if ok != fail_at.is_none() {
            return Err(format!("{how}: the error of a renderer is not reported, or one is without reason"));
        }
        if !want.as_bytes().starts_with(out) || fail_at.is_none() && out.len() < want.len() {
            return Err(format!("{how}: something else than what a renderer wrote"));
        }
        Ok(())
    };
    let mut d = new();
    let mut out = String::new();
    let ok = d.push_events(evs.iter().cloned(), &mut out).is_ok();
    judge("push_events", d, ok, out.as_bytes())?;
    let mut d = new();
    let mut out = IoSink::new(1 + r.n(6), r.one(2));
    let res = d.write_events(evs.iter().cloned(), &mut out);
    judge("write_events", d, res.is_ok(), &out.out)?;
    let mut d = new();
    let mut out = IoSink::new(usize::MAX, r.one(2));
    let res = evs.iter().cloned().try_for_each(|e| d.write_event(e, &mut out));
    judge("write_event", d, res.is_ok(), &out.out)
}

const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WriteZero,
    io::ErrorKind::StorageFull,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::Other,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::UnexpectedEof,
];

fn test(c: &Case) -> Out {
    let src = c.t[0].as_str();
    let mode = match c.n.first() {
        Some(0) => Mode::Default,
        Some(1) => Mode::Minified,
        _ => Mode::Indented(" \t".into(), 1),
    };
    let seed = c.n.get(1).copied().unwrap_or(0);
    let mut r = Rng::new(seed);
    let p = Parser::new(src);
    let full = jd::html(src, &mode);
    // string, through a reference, with render_to_string
    if mode == Mode::Default && jotdown::html::render_to_string(p.clone()) != full {
        return fail("render_to_string differs");
    }
    let mut sink = FmtSink::new(None);
    if mode.renderer().push_events(p.clone(), &mut sink).is_err() || sink.out != full {
        return fail("fmt sink gets something else than a string");
    }
    let writes = sink.writes;
    // event by event
    let mut one = String::new();
    let mut rend = mode.renderer();
    for e in p.clone() {
        rend.push_event(e, &mut one).unwrap();
    }
    if one != full {
        return fail("event by event differs from all at once");
    }
    let mut one = Vec::new();
    let mut rend = mode.renderer();
    for e in p.clone() {
        if let Err(e) = rend.write_event(e, &mut one) {
            return fail(format!("writing an event to a vector: {e}"));
        }
    }
    if one != full.as_bytes() {
        return fail("event by event to io differs");
    }
    for (chunk, interrupt) in [(usize::MAX, false), (1, false), (3, true), (7, true)] {
        let mut s = IoSink::new(chunk, interrupt);
        if let Err(e) = mode.renderer().write_events(p.clone(), &mut s) {
            return fail(format!("writing at most {chunk} bytes at once: {e}"));
        }
        if s.out != full.as_bytes() {
            return fail(format!(
                "io sink that takes {chunk} bytes at once, interrupts: {interrupt}: got {:?}, expected {full:?}",
                String::from_utf8_lossy(&s.out)
            ));
        }
    }
    // faults of fmt sinks
    let all = writes <= 60;
    let points: Vec<usize> = if all {
        (0..writes).collect()
    } else {
        (0..12).map(|_| r.n(writes)).chain([0, writes - 1]).collect()
    };
    for &n in &points {
        let mut s = FmtSink::new(Some(n));
        let res = mode.renderer().push_events(p.clone(), &mut s);
        if res.is_ok() {
            return fail(format!("failure of write {n} of {writes} is not reported"));
        }
        if s.after > 0 {
            return fail(format!("{} writes after the failure of write {n} of {writes}", s.after));
        }
        if !full.starts_with(&s.out) {
            return fail(format!("before the failure of write {n}: {:?}, no prefix of {full:?}", s.out));
        }
        // event by event: the error comes from the event whose write failed
        let mut s = FmtSink::new(Some(n));
        let mut rend = mode.renderer();
        let mut errs = 0;
        for e in p.clone() {
            let was = s.failed;
            let r = rend.push_event(e, &mut s);
            if r.is_err() {
                errs += 1;
                break;
            }
            if s.failed && !was {
                return fail(format!("failure of write {n} is not reported by the event"));
            }
        }
        if errs != 1 {
            return fail(format!("failure of write {n} is not reported event by event"));
        }
    }
    // faults of io sinks
    let k = if all { points.len().min(20) } else { 6 };
    for i in 0..k {
        let kind = if i % 5 == 4 {
            None
        } else {
            Some(*r.pick(KINDS))
        };
        let mut s = IoSink::new(*r.pick(&[1, 2, 5, usize::MAX]), r.one(4));
        s.kind = kind;
        if full.is_empty() {
            break;
        }
        if i % 2 == 0 {
            s.limit = Some(r.n(full.len()));
        } else {
            s.fail_write = Some(r.n(writes));
            s.chunk = usize::MAX;
        }
        let by_event = r.one(3);
        let res = if by_event {
            let mut rend = mode.renderer();
            p.clone().try_for_each(|e| rend.write_event(e, &mut s))
        } else {
            mode.renderer().write_events(p.clone(), &mut s)
        };
        if !s.failed {
            // writes of nothing do not reach the sink
            if res.is_err() || s.out != full.as_bytes() {
                return fail("io sink that did not fail");
            }
            continue;
        }
        match res {
            Ok(()) => return fail(format!("io failure ({kind:?}) is not reported")),
            Err(e) => {
                let want = kind.unwrap_or(io::ErrorKind::WriteZero);
                if e.kind() != want {
                    return fail(format!("io failure of kind {want:?} is reported as {:?}", e.kind()));
                }
                if kind.is_some() && e.to_string() != "injected" {
                    return fail(format!("io failure is reported as {e}"));
                }
            }
        }
        if s.after > 0 {
            return fail("io writes after a failure");
        }
        if !full.as_bytes().starts_with(&s.out) {
            return fail("what was written before an io failure is no prefix");
        }
    }
    if let Err(e) = custom(&p, &mut r) {
        return fail(e);
    }
    let mut l = u64::from(writes >= 3);
    l |= u64::from(all) << 1;
    l |= 4;
    l |= u64::from(matches!(mode, Mode::Indented(..))) << 3;
    l |= u64::from(!full.is_ascii()) << 4;
    Out::Pass(l)
}

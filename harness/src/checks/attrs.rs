//! C13, C14: attribute syntax and attribute sets.
use super::*;
use crate::cov;
use crate::gen::*;
use crate::refattr;
use crate::refattr::Elems;
use crate::refattr::K;
use jotdown::AttributeKind;
use jotdown::AttributeValue;
use jotdown::Event as E;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C13",
            rule: "strings made of attribute syntax with slips, parsed as attributes and compared with a reference parser including the error position; (1 in 3) documents with such strings against the reference parser; non-trivial: at least one element parsed or rejected after the first byte",
            labels: &["accepted", "rejected", "several groups", "document", "with escapes"],
            gen: gen_syntax,
            test: test_syntax,
            relevant: |c| {
                c.n[0] != 1
                    || against_model(&c.t[0], true).1.is_some_and(|d| {
                        d.a.iter().chain(&d.r).any(|e| {
                            matches!(e, E::Attributes(_))
                                || matches!(e, E::Start(_, a) | E::ThematicBreak(a) if !a.is_empty())
                                || matches!(e, E::Str(s) if s.contains(['{', '}']))
                        })
                    })
            },
            quick: 1_500_000,
        },
        Prop {
            id: "C14",
            rule: "random element lists (repeated keys, classes of all kinds, comments, escapes) against a model of the attribute set; non-trivial: some key occurs more than once",
            labels: &["classes joined", "escapes", "parsed from text", "comments"],
            gen: gen_set,
            test: test_set,
            relevant: always,
            quick: 1_500_000,
        },
    ]
}

pub fn attr_text(r: &mut Rng) -> String {
    let mut s = match r.n(5) {
        0 => soup(r, &[ATTR, WS]),
        1 => soup(r, &[ATTR, WS, WORD, ESC, HOSTILE, MISC]),
        _ => {
            let slip = *r.pick(&[0, 0, 20, 50]);
            let mut d = Doc {
                r,
                focus: Focus::Attr,
                slip,
                left: 24,
            };
            d.attr()
        }
    };
    for _ in 0..r.n(3) {
        if r.one(3) {
            let o = s.clone();
            s = mutate(r, &s, &o, &[ATTR, WS, ESC, MISC]);
        }
    }
    if r.one(6) {
        s.push_str(r.pick(WS));
    }
    s
}

fn gen_syntax(r: &mut Rng, g: &Guide) -> Case {
    if r.n(3) > 0 {
        Case {
            t: vec![attr_text(r)],
            n: vec![0],
        }
    } else {
        let mut s = doc(r, g, Focus::Attr, &[ATTR, ATTR, WS, WORD, BLOCK, DELIM, ESC]);
        if r.one(2) {
            let t = attr_text(r);
            let at: Vec<usize> = s.char_indices().map(|c| c.0).collect();
            let at = at.get(r.n(at.len() + 1)).copied().unwrap_or(s.len());
            s.insert_str(at, &t);
        }
        Case { t: vec![s], n: vec![1] }
    }
}

fn test_syntax(c: &Case) -> Out {
    let s = c.t[0].as_str();
    if c.n[0] == 1 {
        let (a, d) = against_model(s, true);
        return match d {
            Some(d) => Out::Fail(d.msg),
            None => Out::Pass(
                u64::from(a.iter().any(|e| {
                    matches!(&e.0, E::Start(_, a) | E::ThematicBreak(a) | E::Attributes(a) if !a.is_empty())
                })) | 16,
            ),
        };
    }
    cov::reset(jd::budget(s.len()));
    let got = Attributes::try_from(s);
    cov::steps();
    let want = refattr::parse_all(s);
    let mut l = 0;
    match (&got, &want) {
        (Ok(a), Ok(e)) => {
            let x = refattr::from_jd(a);
            if x != *e {
                return fail(format!("parsed as {x:?}, expected {e:?}"));
            }
            // the elements may be put together again and mean the same
            if refattr::to_jd(e) != *a {
                return fail("not equal to the same elements");
            }
            l |= u64::from(!e.is_empty()) | 2;
            l |= u64::from(s.contains("}{")) << 3;
            l |= u64::from(s.contains('\\')) << 5;
        }
        (Err(a), Err(b)) => {
            if a.pos != *b {
                return fail(format!("error at {}, expected at {b}", a.pos));
            }
            if a.pos > s.len() {
                return fail("error position after the end");
            }
            l |= u64::from(*b > 0) | 4;
        }
        _ => {
            return fail(format!(
                "{:?}, expected {want:?}",
                got.as_ref().map(refattr::from_jd).map_err(|e| e.pos)
            ))
        }
    }
    Out::Pass(l)
}

// ---- C14 ----

// elements are encoded in texts: kind, then value
fn gen_set(r: &mut Rng, _: &Guide) -> Case {
    if r.one(3) {
        return Case {
            t: vec![attr_text(r)],
            n: vec![0],
        };
    }
    let mut t = Vec::new();
    let keys = ["a", "b", "class", "id", "k", "é", "", "Class", "ab"];
    let sub: Vec<&str> = (0..r.r(1, 4)).map(|_| *r.pick(&keys)).collect();
    for _ in 0..r.n(9) {
        let k = match r.n(8) {
            0 | 1 => Some('.'),
            2 => Some('#'),
            3 => Some('%'),
            _ => None,
        };
        let mut v = String::new();
        for _ in 0..r.n(5) {
            v.push_str(r.pick(&[
                "x", "y z", " ", "\\", "\\\\", "\\\"", "\"", "\\a", "é", "\n", "&", "<", "\\é", "a", "\\ ", "\\.", "%", "}",
            ]));
        }
        t.push(match k {
            Some(k) => format!("{k}{v}"),
            None => format!("={}\u{1}{v}", r.pick(&sub)),
        });
    }
    Case { t, n: vec![1] }
}

fn decode(t: &[String]) -> Option<Elems> {
    t.iter()
        .map(|s| {
            let mut it = s.chars();
            let c = it.next()?;
            let v = it.as_str();
            Some(match c {
                '.' => (K::Class, v.to_string()),
                '#' => (K::Id, v.to_string()),
                '%' => (K::Comment, v.to_string()),
                '=' => {
                    let (k, v) = v.split_once('\u{1}')?;
                    (K::Pair(k.to_string()), v.to_string())
                }
                _ => return None,
            })
        })
        .collect()
}

fn test_set(c: &Case) -> Out {
    let (elems, a): (Elems, Attributes) = if c.n[0] == 0 {
        let s = c.t[0].as_str();
        match Attributes::try_from(s) {
            Ok(a) => {
                let e = refattr::from_jd(&a);
                // the debug form of parsed attributes is attributes again
                let d = format!("{a:?}");
                // (a value in debug form is quoted as is, and so must not end in half an escape)
                let odd = e.iter().any(|(k, v)| {
                    matches!(k, K::Pair(_)) && (v.len() - v.trim_end_matches('\\').len()) % 2 == 1
                });
                if !odd {
                    match Attributes::try_from(d.as_str()) {
                        Ok(b) if b == a => {}
                        x => {
                            return fail(format!(
                                "debug form {d:?} parses as {:?}, expected {e:?}",
                                x.map(|a| refattr::from_jd(&a))
                            ))
                        }
                    }
                }
                (e, refattr::to_jd(&refattr::from_jd(&a)))
            }
            Err(_) => return Out::Pass(0),
        }
    } else {
        match decode(&c.t) {
            Some(e) => {
                let a = refattr::to_jd(&e);
                (e, a)
            }
            None => return Out::Pass(0),
        }
    };
    let unique = refattr::unique(&elems);
    // pairs
    let got: Vec<(String, String)> = a
        .unique_pairs()
        .map(|(k, v)| (k.to_string(), refattr::raw(&v)))
        .collect();
    if got != unique {
        return fail(format!("{elems:?}: unique pairs {got:?}, expected {unique:?}"));
    }
    // lookup and membership
    for k in ["a", "b", "class", "id", "k", "é", "", "Class", "ab", "zz", "A", "clas"]
        .into_iter()
        .chain(unique.iter().map(|u| u.0.as_str()))
    {
        let want = unique.iter().find(|u| u.0 == k).map(|u| u.1.clone());
        let got = a.get_value(k).map(|v| refattr::raw(&v));
        if got != want {
            return fail(format!("{elems:?}: value of {k:?} is {got:?}, expected {want:?}"));
        }
        if a.contains_key(k) != want.is_some() {
            return fail(format!("{elems:?}: membership of {k:?} is {}", a.contains_key(k)));
        }
        if let Some(v) = a.get_value(k) {
            let want = refattr::display(&want.unwrap());
            let parts: String = v.parts().collect();
            if parts != want || v.to_string() != want {
                return fail(format!("{elems:?}: value of {k:?} is displayed as {parts:?}, expected {want:?}"));
            }
        }
    }
    // elements, kinds and values
    for ((k, v), (mk, mv)) in a.iter().zip(&elems) {
        if k.key() != refattr::key(mk) {
            return fail(format!("key of {k:?}"));
        }
        let want = refattr::display(mv);
        let parts: String = v.parts().collect();
        if parts != want || v.to_string() != want {
            return fail(format!("{mv:?} is displayed as {parts:?}, expected {want:?}"));
        }
        let cow = std::borrow::Cow::Borrowed(mv.as_str());
        if *v != AttributeValue::from(mv.as_str()) || *v != AttributeValue::from(mv.clone()) || *v != AttributeValue::from(cow) {
            return fail(format!("{v:?} is not equal to the value of {mv:?}"));
        }
    }
    // iterators
    let at = c.t.iter().map(String::len).sum();
    let want: Vec<_> = a.unique_pairs().collect();
    if let Err(e) = iterator(|| a.unique_pairs(), &want, at) {
        return fail(format!("unique pairs: {e}"));
    }
    for (_, v) in &a {
        let want: Vec<&str> = v.parts().collect();
        if let Err(e) = iterator(|| v.parts(), &want, at) {
            return fail(format!("parts of a value: {e}"));
        }
    }
    // views and conversions
    let m = elems.len();
    if a.len() != m || a.is_empty() != (m == 0) {
        return fail("length");
    }
    let list: Vec<(AttributeKind, AttributeValue)> = a.clone().into();
    let by_ref: Vec<_> = (&a).into_iter().cloned().collect();
    let by_val: Vec<_> = a.clone().into_iter().collect();
    if list != by_ref || list != by_val || list != **a {
        return fail("elements differ between iterators and conversions");
    }
    let b = Attributes::from(list.clone());
    let c2: Attributes = list.into_iter().collect();
    if b != a || c2 != a {
        return fail("converting elements to attributes and back");
    }
    // mutable iteration: replace one value, see it in lookups
    if m > 0 {
        for i in [0, m / 2, m - 1] {
            let mut e2 = elems.clone();
            e2[i].1 = "new".into();
            let mut b = a.clone();
            for (j, (_, v)) in (&mut b).into_iter().enumerate() {
                if j == i {
                    *v = "new".into();
                }
            }
            if refattr::from_jd(&b) != e2 {
                return fail("changing a value through the mutable iterator");
            }
            let mut b = a.clone();
            b[i].1 = String::from("new").into();
            let want = refattr::unique(&e2);
            let got: Vec<(String, String)> = b
                .unique_pairs()
                .map(|(k, v)| (k.to_string(), refattr::raw(&v)))
                .collect();
            if got != want {
                return fail("unique pairs after changing a value");
            }
            // removing and pushing
            let mut b = a.clone();
            let x = b.remove(i);
            b.push(x);
            let mut e3 = elems.clone();
            let x = e3.remove(i);
            e3.push(x);
            if refattr::from_jd(&b) != e3 {
                return fail("moving an element to the end");
            }
        }
    }
    let keys: Vec<&str> = elems.iter().filter_map(|e| refattr::key(&e.0)).collect();
    let repeated = keys.iter().enumerate().any(|(i, k)| keys[..i].contains(k));
    let mut l = u64::from(repeated);
    l |= u64::from(keys.iter().filter(|k| **k == "class").count() > 1) << 1;
    l |= u64::from(elems.iter().any(|e| e.1.contains('\\'))) << 2;
    l |= u64::from(c.n[0] == 0) << 3;
    l |= u64::from(elems.iter().any(|e| matches!(e.0, K::Comment))) << 4;
    Out::Pass(l)
}

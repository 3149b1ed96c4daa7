//! Events as values: C30.

use crate::common::*;
use crate::engine::Ctx;
use crate::ev::*;
use std::borrow::Cow;
use yary::event::flag::{Flags, O_LAZY, O_NIL};
use yary::event::from_reader_with;
use yary::event::types::*;
use yary::reader::Read;

type Seen = (Ev, usize, usize);

fn see(e: &Event<'_>) -> Result<Seen, String> {
    Ok((model(e.data(), None).map_err(|e| e.to_string())?, e.start(), e.end()))
}

/// All events before the first error; the iterator and the reader are printed now and then
fn all<'r, R: Read>(c: &mut Ctx, r: &'r R, flags: Flags, limit: usize) -> Result<Vec<Event<'r>>, String> {
    let mut out: Vec<Event<'r>> = vec![];
    let look = if limit < 3000 && c.src.pct(20) { c.src.range(1, 20) } else { 0 };
    let mut events = from_reader_with(r, flags);
    loop {
        if look > 0 && c.src.pct(look) {
            if format!("{:?}", events).is_empty() || format!("{:#?}", r).is_empty() || format!("{:?}", events.iter()).is_empty() {
                return Err("printed as nothing".into());
            }
        }
        if look > 0 && c.src.pct(2) {
            let it = events.into_iter();
            if format!("{:?}", it).is_empty() {
                return Err("printed as nothing".into());
            }
            events = it.into_inner();
        }
        if out.len() > limit {
            return Err("too many events".into());
        }
        let x = events.iter().next();
        match x {
            Some(Ok(e)) => {
                if look > 0 && format!("{:?}", e).is_empty() {
                    return Err("printed as nothing".into());
                }
                out.push(e)
            }
            _ => return Ok(out),
        }
    }
}

fn scalar<'a, 'de>(e: &'a Event<'de>) -> Option<&'a ScalarLike<'de>> {
    match e.data() {
        EventData::Scalar(n) => Some(&n.content),
        _ => None,
    }
}

/// Evaluates what is deferred; an event that cannot be is left out
fn evaluated<'r>(v: Vec<Event<'r>>) -> Vec<Option<Event<'r>>> {
    v.into_iter()
        .map(|mut e| {
            if let EventData::Scalar(n) = e.data_mut() {
                if n.content.evaluate_by_ref().is_err() {
                    return None;
                }
            }
            Some(e)
        })
        .collect()
}

fn access(e: &Event<'_>, s: &Seen) -> Result<(), String> {
    let again = Event::new(e.start(), e.end(), e.data().clone());
    if again != *e || *e != again || e.clone() != *e || *e != e.clone() {
        return Err(format!("{:?} is not equal to itself made anew", e));
    }
    if let (Some(l), Ev::Scalar { value, style, .. }) = (scalar(e), &s.0) {
        if !l.is_evaluated() || l.is_unevaluated() {
            return Err(format!("evaluated {:?} says it is not", e));
        }
        let mut l = l.clone();
        let by_ref = l.evaluate_by_ref().map_err(|e| e.to_string())?.clone();
        let twice = l.evaluate_by_ref().map_err(|e| e.to_string())?.clone();
        let v = l.evaluate().map_err(|e| e.to_string())?;
        if by_ref != v || twice != v {
            return Err(format!("evaluated again, {:?} is {:?}", v, twice));
        }
        let r: &str = v.as_ref();
        if v.data() != value || r != value || &*v != value.as_str() || v.len() != value.len() {
            return Err(format!("{:?}: ways to its content differ", v));
        }
        let st = style_of(v.style());
        if st != *style {
            return Err(format!("{:?}: style {:?}", v, style));
        }
        let empty = value.is_empty() && st == Style::Plain;
        if (ScalarLike::Eager(v.clone()) == EMPTY_SCALAR) != empty || (ScalarLike::Eager(v) == ScalarLike::default()) != empty {
            return Err(format!("{:?} is compared with the empty scalar wrongly", e));
        }
    }
    if let (EventData::DocumentStart(d), Ev::DocStart { version, tags, .. }) = (e.data(), &s.0) {
        let plain = *version == (1, 2) && tags.len() == 2 && d.directives.tags.iter().all(|t| DEFAULT_TAGS.iter().any(|x| x.0 == *t.0 && x.1 == *t.1));
        if (d.directives == Directives::default()) != plain {
            return Err(format!("{:?} is compared with default directives wrongly", e));
        }
        if (d.directives.version == DEFAULT_VERSION) != (*version == (1, 2)) {
            return Err(format!("{:?} is compared with the default version wrongly", e));
        }
    }
    Ok(())
}

fn change_props(c: &mut Ctx, anchor: (&mut Option<Slice<'_>>, &mut Option<String>), tag: (&mut Option<(Slice<'_>, Slice<'_>)>, &mut Option<(String, String)>), kind: (&mut NodeKind, &mut Kind)) {
    match c.src.below(7) {
        0 => {
            *anchor.0 = None;
            *anchor.1 = None;
        }
        1 => match (anchor.0, anchor.1) {
            (Some(a), Some(b)) => {
                a.to_mut().push('z');
                b.push('z');
            }
            (a, b) => {
                *a = Some(Cow::Borrowed("new"));
                *b = Some("new".into());
            }
        },
        2 => {
            *tag.0 = None;
            *tag.1 = None;
        }
        3 => match (tag.0, tag.1) {
            (Some(a), Some(b)) => {
                a.0.to_mut().push('z');
                b.0.push('z');
            }
            (a, b) => {
                *a = Some((Cow::Borrowed("!"), Cow::Borrowed("new")));
                *b = Some(("!".into(), "new".into()));
            }
        },
        4 => {
            if let (Some(a), Some(b)) = (tag.0, tag.1) {
                a.1.to_mut().push('z');
                b.1.push('z');
            }
        }
        _ => {
            let (a, b) = *c.src.pick(&[
                (NodeKind::Root, Kind::Root),
                (NodeKind::Entry, Kind::Entry),
                (NodeKind::Key, Kind::Key),
                (NodeKind::Value, Kind::Value),
            ]);
            *kind.0 = a;
            *kind.1 = b;
        }
    }
}

/// Changes something of an event, and of its model
fn change<'r>(c: &mut Ctx, from: &[Event<'r>], e: &mut Event<'r>, s: &mut Seen) {
    if c.src.pct(15) {
        // another position
        let (a, b) = *c.src.pick(&[(0, 1), (1, 0), (1, 1), (0, 256), (0, 1 << 32)]);
        *e = Event::new(s.1 + a, s.2 + b, e.data().clone());
        s.1 += a;
        s.2 += b;
        return;
    }
    match (e.data_mut(), &mut s.0) {
        (EventData::Scalar(n), Ev::Scalar { value, style, anchor, tag, kind }) => {
            if c.src.pct(40) {
                change_props(c, (&mut n.anchor, anchor), (&mut n.tag, tag), (&mut n.kind, kind));
                return;
            }
            if c.src.pct(20) {
                // the same text in the style of another scalar
                let o = c.src.below(from.len());
                if let Some(Ok(mut x)) = scalar(&from[o]).map(|x| x.clone().evaluate()) {
                    *x.data_mut() = Cow::Owned(value.clone());
                    *style = style_of(x.style());
                    n.content = ScalarLike::Eager(x);
                }
                return;
            }
            let d = match n.content.evaluate_by_ref() {
                Ok(x) => x.data_mut(),
                Err(_) => return,
            };
            match c.src.below(4) {
                0 => {
                    d.to_mut().push_str("é");
                    value.push('é');
                }
                1 => {
                    *d = Cow::Borrowed("changed");
                    *value = "changed".into();
                }
                2 => {
                    d.to_mut().clear();
                    value.clear();
                }
                _ => {
                    let up = d.to_ascii_uppercase();
                    // in place
                    d.to_mut().make_ascii_uppercase();
                    *value = up;
                }
            }
        }
        (EventData::DocumentStart(d), Ev::DocStart { implicit, version, tags }) => match c.src.below(6) {
            0 => {
                d.directives.version.major = d.directives.version.major.wrapping_add(1);
                version.0 = version.0.wrapping_add(1);
            }
            1 => {
                d.directives.version.minor = d.directives.version.minor.wrapping_add(1);
                version.1 = version.1.wrapping_add(1);
            }
            2 => {
                d.directives.tags.insert(Cow::Borrowed("!new!"), Cow::Borrowed("x"));
                tags.insert("!new!".into(), "x".into());
            }
            3 => {
                d.directives.tags.insert(Cow::Borrowed("!!"), Cow::Borrowed("x"));
                tags.insert("!!".into(), "x".into());
            }
            4 => {
                d.directives.tags.remove("!");
                tags.remove("!");
            }
            _ => {
                d.implicit = !d.implicit;
                *implicit = !*implicit;
            }
        },
        (EventData::DocumentEnd(d), Ev::DocEnd { implicit }) => {
            d.implicit = !d.implicit;
            *implicit = !*implicit;
        }
        (EventData::Alias(a), Ev::Alias(x)) => {
            a.name.to_mut().push('z');
            x.push('z');
        }
        (EventData::MappingStart(n), Ev::MapStart { anchor, tag, kind }) => {
            change_props(c, (&mut n.anchor, anchor), (&mut n.tag, tag), (&mut n.kind, kind));
        }
        (EventData::SequenceStart(n), Ev::SeqStart { anchor, tag, kind }) => {
            change_props(c, (&mut n.anchor, anchor), (&mut n.tag, tag), (&mut n.kind, kind));
        }
        _ => {}
    }
}

fn style_of(s: ScalarStyle) -> Style {
    match s {
        ScalarStyle::Plain => Style::Plain,
        ScalarStyle::SingleQuote => Style::Single,
        ScalarStyle::DoubleQuote => Style::Double,
        ScalarStyle::Literal => Style::Literal,
        ScalarStyle::Folded => Style::Folded,
    }
}

pub fn c30(c: &mut Ctx) -> Result<(), String> {
    let text = match c.src.weighted(&[60, 25, 4]) {
        0 => {
            let cfg = any_cfg(&mut c.src);
            stream(c, cfg, 1).text
        }
        1 => any_text(c),
        _ => {
            let cfg = any_cfg(&mut c.src);
            let t = stream(c, cfg, 1).text;
            format!("{}{}", padding(&mut c.src, t.as_bytes()), t)
        }
    };
    c.input(text.as_bytes());
    let limit = event_limit(text.len());
    let flags = |c: &mut Ctx| if c.src.pct(50) { O_LAZY } else { O_NIL };
    // the same from a string, eagerly, and in another way
    let ra = yary::reader::from_utf8(&text);
    let a = all(c, &ra, O_NIL, limit)?;
    let ops = chunk_ops(&mut c.src, text.len());
    let rb = yary::reader::from_read(Source::new(text.as_bytes(), ops));
    let copy = ra.clone();
    let f = flags(c);
    let b = evaluated(if c.src.pct(60) { all(c, &rb, f, limit)? } else { all(c, &copy, f, limit)? });
    let seen: Vec<Seen> = a.iter().map(see).collect::<Result<_, _>>()?;
    if seen.len() > 6 {
        c.nontrivial();
    }
    for (i, (x, y)) in a.iter().zip(&b).enumerate() {
        if let Some(y) = y {
            if x != y || y != x || x.data() != y.data() {
                return Err(format!("event {} is not equal to the same event obtained otherwise: {:?} and {:?}", i, x, y));
            }
        }
    }
    for (e, s) in a.iter().zip(&seen) {
        access(e, s)?;
    }
    if a.is_empty() {
        return Ok(());
    }
    // any two
    for _ in 0..c.src.range(4, 30) {
        let (i, j) = (c.src.below(a.len()), c.src.below(a.len()));
        let same = seen[i].0 == seen[j].0;
        if (a[i].data() == a[j].data()) != same {
            return Err(format!("{:?} and {:?}: equal is {}", a[i].data(), a[j].data(), !same));
        }
        let same = seen[i] == seen[j];
        if (a[i] == a[j]) != same || (a[i] != a[j]) == same {
            return Err(format!("{:?} and {:?}: equal is {}", a[i], a[j], !same));
        }
        if let Some(Some(y)) = b.get(j) {
            if (a[i] == *y) != same {
                return Err(format!("{:?} and {:?}: equal is {}", a[i], y, !same));
            }
        }
    }
    // copies that are changed
    let mut pool: Vec<(Event<'_>, Seen)> = a.iter().cloned().zip(seen.iter().cloned()).collect();
    for _ in 0..c.src.range(3, 20) {
        let i = c.src.below(pool.len());
        match c.src.below(3) {
            0 => {
                let x = (pool[i].0.clone(), pool[i].1.clone());
                pool.push(x);
            }
            1 => {
                let (mut e, mut s) = (pool[i].0.clone(), pool[i].1.clone());
                change(c, &a, &mut e, &mut s);
                if (e == pool[i].0) != (s == pool[i].1) {
                    return Err(format!("{:?} and {:?}: equal is {}", e, pool[i].0, s != pool[i].1));
                }
                pool.push((e, s));
            }
            _ => {
                let (e, s) = &mut pool[i];
                change(c, &a, e, s);
            }
        }
    }
    let n = pool.len();
    for _ in 0..10 {
        let (i, j) = (c.src.below(n), c.src.below(n));
        let same = pool[i].1 == pool[j].1;
        if (pool[i].0 == pool[j].0) != same {
            return Err(format!("{:?} and {:?}: equal is {}", pool[i].0, pool[j].0, !same));
        }
    }
    for (e, s) in &pool {
        if see(e)? != *s {
            return Err(format!("{:?} instead of {:?}, after changes to copies", see(e)?, s));
        }
    }
    for (e, s) in a.iter().zip(&seen) {
        if see(e)? != *s {
            return Err(format!("{:?} instead of {:?}, after changes to copies", see(e)?, s));
        }
    }
    // the source is as it was
    let again = all(c, &ra, O_NIL, limit)?;
    if again != a {
        return Err("read again, the events are not equal".into());
    }
    Ok(())
}

//! What errors say of themselves: C29.

use crate::common::*;
use crate::engine::Ctx;
use crate::ev::*;
use crate::gen::*;
use crate::p_any::KINDS;
use crate::p_misc::*;
use crate::p_struct::AROUND;
use std::error::Error as _;
use std::io;
use yary::event::flag::{O_LAZY, O_NIL};
use yary::event::from_reader_with;
use yary::event::types::EventData;
use yary::reader::Read;

/// What is the same of two errors for the same fault
#[derive(Clone, PartialEq, Eq, Debug)]
struct Told {
    cat: Cat,
    text: String,
}

/// The first error met, from the iterator or from evaluating a scalar as it comes
fn first_error<R: Read>(r: &R, lazy: bool, len: usize) -> Result<Option<yary::Error>, String> {
    let mut n = 0;
    for e in from_reader_with(r, if lazy { O_LAZY } else { O_NIL }) {
        n += 1;
        if n > event_limit(len) {
            return Err("too many events".into());
        }
        match e {
            Err(e) => return Ok(Some(e)),
            Ok(e) => {
                if let EventData::Scalar(s) = e.data() {
                    if let Err(e) = s.content.clone().evaluate() {
                        return Ok(Some(e));
                    }
                }
            }
        }
    }
    Ok(None)
}

fn via_error(text: &[u8], via: &Via, lazy: bool) -> Result<Option<yary::Error>, String> {
    match via {
        Via::Str => first_error(&yary::reader::from_utf8(std::str::from_utf8(text).unwrap()), lazy, text.len()),
        Via::Bytes => match yary::reader::try_from_bytes(text) {
            Err(e) => Ok(Some(e)),
            Ok(r) => first_error(&r, lazy, text.len()),
        },
        Via::Read(ops) => {
            first_error(&yary::reader::from_read(Source::new(text, ops.clone())), lazy, text.len())
        }
    }
}

fn thread_safe<T: Send + Sync + 'static>(_: &T) {}

/// Looks at everything an error can be asked, and converts it
fn inspect(e: yary::Error, text: &[u8]) -> Result<Told, String> {
    thread_safe(&e);
    let k = cat(e.classify());
    let shown = e.to_string();
    if shown.trim().is_empty() {
        return Err("an error without a message".into());
    }
    if format!("{:?}", e).is_empty() || format!("{:#?}", e).is_empty() {
        return Err("an error without a debug form".into());
    }
    if e.to_string() != shown || cat(e.classify()) != k {
        return Err(format!("asked again, {:?} is {:?}", shown, e.to_string()));
    }
    if e.has_context() {
        let breaks = String::from_utf8_lossy(text).chars().filter(|c| is_brk(*c)).count() as u64;
        let n = text.len() as u64;
        if e.at() > n || e.column() > n + 1 || e.line() == 0 || e.line() > breaks + 1 {
            return Err(format!("index {}, line {}, column {} in {} bytes of {} lines", e.at(), e.line(), e.column(), n, breaks + 1));
        }
    }
    let mut depth = 0;
    let mut s = e.source();
    while let Some(x) = s {
        depth += 1;
        if depth > 20 {
            return Err("an endless chain of causes".into());
        }
        let _ = x.to_string();
        s = x.source();
    }
    let bx: Box<dyn std::error::Error + Send + Sync> = Box::new(e);
    let e = *bx.downcast::<yary::Error>().map_err(|_| "not itself any more")?;
    let io: io::Error = e.into();
    let want = match k {
        Cat::Syntax => Some(io::ErrorKind::InvalidInput),
        Cat::Data => Some(io::ErrorKind::InvalidData),
        Cat::Eof => Some(io::ErrorKind::UnexpectedEof),
        Cat::Io => None,
    };
    if want.map_or(false, |w| w != io.kind()) {
        return Err(format!("{:?} {:?} becomes an io::Error of kind {:?}", k, shown, io.kind()));
    }
    if io.to_string() != shown {
        return Err(format!("{:?} {:?} becomes an io::Error that says {:?}", k, shown, io.to_string()));
    }
    Ok(Told { cat: k, text: shown })
}

/// Numbers and code points that can be out of range
fn may_overflow(text: &str) -> bool {
    ["\\ud", "\\uD", "\\U"].iter().any(|s| text.contains(s))
        || text.split("%YAML").skip(1).any(|line| {
            let line = line.split(is_brk).next().unwrap_or("");
            line.split(|c: char| !c.is_ascii_digit())
                .map(|n| n.trim_start_matches('0'))
                .any(|n| n.len() > 3 || n.len() == 3 && n > "255")
        })
}

/// What the error of a text must be, if there is one
fn allowed(text: &str, k: Cat, complete: bool) -> Result<(), String> {
    match k {
        Cat::Io => Err("an I/O error without a source that fails".into()),
        Cat::Data if !may_overflow(text) => Err("a data error in valid UTF-8 without numbers".into()),
        Cat::Eof if complete => Err("an end of input error far from the end".into()),
        _ => Ok(()),
    }
}

/// Compares what is told by all readers
fn everywhere(c: &mut Ctx, text: &str, want: Option<Cat>, complete: bool) -> Result<Option<Told>, String> {
    c.input(text.as_bytes());
    let mut first: Vec<Option<Option<Told>>> = vec![None, None];
    let n = 2 + c.src.below(3);
    for i in 0..n {
        let (via, lazy) = match i {
            0 => (Via::Str, false),
            _ => (any_via(&mut c.src, text.len()), c.src.pct(40)),
        };
        let told = match via_error(text.as_bytes(), &via, lazy)? {
            None => None,
            Some(e) => Some(inspect(e, text.as_bytes()).map_err(|m| format!("{:?}, lazy {}: {}", via, lazy, m))?),
        };
        match (&told, want) {
            (None, Some(w)) => return Err(format!("{:?}, lazy {}: accepted, not {:?}", via, lazy, w)),
            // a deferred scalar may be looked for beyond its document's end
            (Some(t), Some(Cat::Syntax)) if lazy && t.cat == Cat::Eof => {}
            (Some(t), Some(w)) if t.cat != w => return Err(format!("{:?}, lazy {}: {:?}, not {:?}", via, lazy, t, w)),
            _ => {}
        }
        if let Some(t) = &told {
            allowed(text, t.cat, complete && !lazy).map_err(|m| format!("{:?}, lazy {}: {}: {:?}", via, lazy, m, t))?;
        }
        match &first[lazy as usize] {
            None => first[lazy as usize] = Some(told),
            Some(f) if *f != told => return Err(format!("{:?}, lazy {}: {:?}, before {:?}", via, lazy, told, f)),
            _ => {}
        }
    }
    Ok(first[0].clone().unwrap())
}

/// A document that is complete, whatever comes before it
fn after(c: &mut Ctx) -> String {
    let brk = *c.src.pick(&["\n", "\n", "\n", "\r\n", "\r", "\u{85}"]);
    format!("{}...{}---{}{}{}", brk, brk, brk, c.src.pick(&["x", "- x", "a: b", "'q'", "[a]"]), brk)
}

pub fn c29(c: &mut Ctx) -> Result<(), String> {
    match c.src.weighted(&[30, 25, 14, 14, 8, 6]) {
        0 => {
            c.label("any text");
            let t = any_text(c);
            let told = everywhere(c, &t, None, false)?;
            if told.is_some() {
                c.nontrivial();
            }
        }
        1 => {
            c.label("followed by a document");
            let mut t = any_text(c);
            t.push_str(&after(c));
            let told = everywhere(c, &t, None, true)?;
            if told.is_some() {
                c.nontrivial();
            }
        }
        2 => {
            // from the tables of faults
            c.label("known fault");
            let mut t = String::new();
            if c.src.pct(40) {
                let cfg = Cfg { docs: 2, budget: 6, ..Cfg::default() };
                t = stream(c, cfg, 0).text;
                if !t.ends_with(is_brk) {
                    t.push('\n');
                }
                t.push_str("...\n");
            }
            match c.src.below(4) {
                0 => t.push_str(c.src.pick(LAYOUT).0),
                1 => t.push_str(c.src.pick(DIRECTIVE)),
                2 => {
                    let a = &AROUND[c.src.below(AROUND.len())];
                    let f = *c.src.pick(NODE);
                    if a.flow && balance(f) < 0 {
                        return Ok(());
                    }
                    t.push_str(&format!("{}{}{}", a.pre, f, a.post));
                }
                _ => {
                    let a = &AROUND[c.src.below(AROUND.len())];
                    if a.flow || a.key {
                        return Ok(());
                    }
                    t.push_str(&format!("{}{}\n      x{}", a.pre, c.src.pick(HEADER), a.post));
                }
            }
            t.push_str(&after(c));
            c.nontrivial();
            let want = if may_overflow(&t) { None } else { Some(Cat::Syntax) };
            if everywhere(c, &t, want, true)?.is_none() {
                return Err("accepted".into());
            }
        }
        3 => {
            c.label("cut in a quoted scalar");
            let d = faulty_stream(c);
            let spans: Vec<(usize, usize, bool)> = d
                .marks
                .iter()
                .filter_map(|m| match m.kind {
                    MarkKind::Quoted { end, double, .. } => Some((m.pos + 1, end - 1, !double)),
                    _ => None,
                })
                .collect();
            if spans.is_empty() {
                return Ok(());
            }
            let (lo, hi, single) = *c.src.pick(&spans);
            let mut at = c.src.range(lo, hi);
            while !d.text.is_char_boundary(at) {
                at -= 1;
            }
            if single && d.text[lo..at].bytes().rev().take_while(|b| *b == b'\'').count() % 2 == 1 {
                at += 1;
                if at > hi {
                    return Ok(());
                }
            }
            let t = d.text[..at].to_string();
            if ["---", "..."].contains(&t.rsplit(is_brk).next().unwrap()) {
                // has become a document marker
                return Ok(());
            }
            c.nontrivial();
            everywhere(c, &t, Some(Cat::Eof), false)?;
        }
        4 => {
            c.label("not UTF-8");
            let mut t = any_text(c).into_bytes();
            let at = c.src.below(t.len() + 1);
            let bad = *c.src.pick(&[&[0xffu8][..], &[0x80], &[0xc0, 0x80], &[0xed, 0xa0, 0x80], &[0xf4, 0x90, 0x80, 0x80], &[0xc3], &[0xf0, 0x9f]]);
            let tail = t.split_off(at);
            t.extend_from_slice(bad);
            t.extend_from_slice(&tail);
            if std::str::from_utf8(&t).is_ok() {
                return Ok(());
            }
            c.nontrivial();
            c.input(&t);
            let ops = chunk_ops(&mut c.src, t.len());
            let lazy = c.src.pct(40);
            for via in [Via::Bytes, Via::Read(ops)] {
                let whole = matches!(via, Via::Bytes);
                match via_error(&t, &via, lazy)? {
                    None => return Err(format!("{:?}: accepted", via)),
                    Some(e) => {
                        let told = inspect(e, &t).map_err(|m| format!("{:?}: {}", via, m))?;
                        if told.cat == Cat::Io || whole && told.cat != Cat::Data {
                            return Err(format!("{:?}: {:?}", via, told));
                        }
                    }
                }
            }
        }
        _ => {
            c.label("failing source");
            // a text that is right leaves nothing but the fault to report
            let valid = c.src.pct(60);
            let t = if valid {
                let cfg = any_cfg(&mut c.src);
                stream(c, cfg, 0).text.into_bytes()
            } else {
                any_text(c).into_bytes()
            };
            let at = c.src.below(t.len() + 1);
            c.input(&t);
            let kind = *c.src.pick(KINDS);
            let (p, os) = match c.src.below(4) {
                0 => (None, None),
                1 => (Some(c.src.pick(&["", "disk on fire", "é\n"]).to_string()), None),
                2 => (Some("p".to_string()), None),
                _ => (None, Some(*c.src.pick(&[2, 5, 11, 13, 32, 104, 110]))),
            };
            if p.as_ref().map_or(false, |p| p.is_empty()) {
                // a message that the source left empty
                return Ok(());
            }
            let want = match (&p, os) {
                (_, Some(os)) => io::Error::from_raw_os_error(os),
                (Some(p), _) => io::Error::new(kind, p.clone()),
                _ => io::Error::from(kind),
            };
            let has_payload = p.is_some();
            let ops = if at == 0 { vec![Op::Fail(kind, p, os)] } else { vec![Op::Give(at), Op::Fail(kind, p, os)] };
            c.note(format!("fails after {} bytes as {:?}", at, want));
            let lazy = c.src.pct(40);
            let via = Via::Read(ops);
            let e = match via_error(&t, &via, lazy)? {
                // a fault of the text comes first
                None => return Err("a clean end after a fault".into()),
                Some(e) => e,
            };
            let is_io = cat(e.classify()) == Cat::Io;
            if valid && !is_io {
                return Err(format!("{} for {:?}", e, want));
            }
            if !is_io {
                inspect(e, &t)?;
                return Ok(());
            }
            c.nontrivial();
            let told = inspect(e, &t)?;
            if !told.text.contains(&want.to_string()) {
                return Err(format!("{:?} does not mention {:?}", told, want.to_string()));
            }
            // once more, for what it is converted to
            let io: io::Error = match via_error(&t, &via, lazy)? {
                None => return Err("a fault is reported once only".into()),
                Some(e) => e.into(),
            };
            if io.kind() != want.kind() || io.raw_os_error() != os || io.get_ref().is_some() != has_payload {
                return Err(format!("{:?} becomes {:?}", want, io));
            }
        }
    }
    Ok(())
}

//! An owned model of events, and drivers for every way of obtaining them from yary.

use std::collections::BTreeMap;
use std::io;

use yary::error::Category;
use yary::event::flag::{Flags, O_LAZY, O_NIL};
use yary::event::types::{EventData, NodeKind, Scalar, ScalarLike, ScalarStyle};
use yary::event::{from_reader_with, types::Event};
use yary::reader::Read;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Root,
    Entry,
    Key,
    Value,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Style {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}

pub type Tag = (String, String);

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Ev {
    StreamStart,
    StreamEnd,
    DocStart { version: (u8, u8), tags: BTreeMap<String, String>, implicit: bool },
    DocEnd { implicit: bool },
    Alias(String),
    Scalar { anchor: Option<String>, tag: Option<Tag>, kind: Kind, style: Style, value: String },
    SeqStart { anchor: Option<String>, tag: Option<Tag>, kind: Kind },
    SeqEnd,
    MapStart { anchor: Option<String>, tag: Option<Tag>, kind: Kind },
    MapEnd,
}

impl Ev {
    pub fn plain(kind: Kind, v: &str) -> Ev {
        Ev::Scalar { anchor: None, tag: None, kind, style: Style::Plain, value: v.to_string() }
    }
    pub fn scalar(kind: Kind, style: Style, v: &str) -> Ev {
        Ev::Scalar { anchor: None, tag: None, kind, style, value: v.to_string() }
    }
    pub fn seq(kind: Kind) -> Ev {
        Ev::SeqStart { anchor: None, tag: None, kind }
    }
    pub fn map(kind: Kind) -> Ev {
        Ev::MapStart { anchor: None, tag: None, kind }
    }
    pub fn doc(implicit: bool) -> Ev {
        Ev::DocStart { version: (1, 2), tags: default_tags(), implicit }
    }
}

pub fn default_tags() -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    m.insert("!".to_string(), "!".to_string());
    m.insert("!!".to_string(), "tag:yaml.org,2002:".to_string());
    m
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cat {
    Io,
    Syntax,
    Data,
    Eof,
}

pub fn cat(c: Category) -> Cat {
    match c {
        Category::IO => Cat::Io,
        Category::Syntax => Cat::Syntax,
        Category::Data => Cat::Data,
        Category::EOF => Cat::Eof,
        #[allow(unreachable_patterns)]
        _ => panic!("yary: category of no known kind"),
    }
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Fail {
    pub cat: Cat,
    pub text: String,
    /// From evaluating a scalar, not from the iterator
    pub eval: bool,
}

#[derive(Clone, Debug)]
pub struct Run {
    pub evs: Vec<Ev>,
    pub marks: Vec<(usize, usize)>,
    pub lazy: Vec<bool>,
    pub fail: Option<Fail>,
    /// The error itself, if it came from the iterator
    pub io: Option<(io::ErrorKind, Option<String>, Option<i32>)>,
}

impl Run {
    pub fn same(&self, o: &Run) -> bool {
        self.evs == o.evs && self.fail.as_ref().map(|f| f.cat) == o.fail.as_ref().map(|f| f.cat)
    }
}

pub fn kind(k: NodeKind) -> Kind {
    match k {
        NodeKind::Root => Kind::Root,
        NodeKind::Entry => Kind::Entry,
        NodeKind::Key => Kind::Key,
        NodeKind::Value => Kind::Value,
    }
}

pub fn style(s: ScalarStyle) -> Style {
    match s {
        ScalarStyle::Plain => Style::Plain,
        ScalarStyle::SingleQuote => Style::Single,
        ScalarStyle::DoubleQuote => Style::Double,
        ScalarStyle::Literal => Style::Literal,
        ScalarStyle::Folded => Style::Folded,
    }
}

fn own(o: &Option<std::borrow::Cow<'_, str>>) -> Option<String> {
    o.as_ref().map(|s| s.to_string())
}

fn own_tag(o: &Option<(std::borrow::Cow<'_, str>, std::borrow::Cow<'_, str>)>) -> Option<Tag> {
    o.as_ref().map(|(a, b)| (a.to_string(), b.to_string()))
}

/// How deferred scalars are evaluated
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Eager,
    /// Evaluated by reference as events arrive
    LazyNow,
    /// By value, on a clone, as events arrive
    LazyClone,
    /// All events are collected first, then evaluated front to back
    LazyAfter,
    /// All events are collected first, then evaluated back to front
    LazyBack,
}

pub const MODES: [Mode; 5] = [Mode::Eager, Mode::LazyNow, Mode::LazyClone, Mode::LazyAfter, Mode::LazyBack];

pub fn flags(m: Mode) -> Flags {
    if m == Mode::Eager {
        O_NIL
    } else {
        O_LAZY
    }
}

/// Model of an event; deferred scalars are given by `lazy`
pub fn model(e: &EventData<'_>, lazy: Option<Result<Scalar<'_>, yary::Error>>) -> Result<Ev, yary::Error> {
    Ok(match e {
        EventData::StreamStart(_) => Ev::StreamStart,
        EventData::StreamEnd => Ev::StreamEnd,
        EventData::DocumentStart(d) => {
            let tags: BTreeMap<String, String> =
                d.directives.tags.iter().map(|(k, v)| (k.to_string(), v.to_string())).collect();
            Ev::DocStart {
                version: (d.directives.version.major, d.directives.version.minor),
                tags,
                implicit: d.implicit,
            }
        }
        EventData::DocumentEnd(d) => Ev::DocEnd { implicit: d.implicit },
        EventData::Alias(a) => Ev::Alias(a.name.to_string()),
        EventData::Scalar(n) => {
            let (value, st) = match (&n.content, lazy) {
                (ScalarLike::Eager(s), None) => (s.data().to_string(), style(s.style())),
                (_, Some(Ok(s))) => (s.data().to_string(), style(s.style())),
                (_, Some(Err(e))) => return Err(e),
                (ScalarLike::Lazy(l), None) => {
                    let s = l.clone().evaluate()?;
                    (s.data().to_string(), style(s.style()))
                }
            };
            Ev::Scalar { anchor: own(&n.anchor), tag: own_tag(&n.tag), kind: kind(n.kind), style: st, value }
        }
        EventData::MappingStart(n) => {
            Ev::MapStart { anchor: own(&n.anchor), tag: own_tag(&n.tag), kind: kind(n.kind) }
        }
        EventData::MappingEnd => Ev::MapEnd,
        EventData::SequenceStart(n) => {
            Ev::SeqStart { anchor: own(&n.anchor), tag: own_tag(&n.tag), kind: kind(n.kind) }
        }
        EventData::SequenceEnd => Ev::SeqEnd,
    })
}

fn fail(e: &yary::Error, eval: bool) -> Fail {
    Fail { cat: cat(e.classify()), text: format!("{}", e), eval }
}

/// More events than any input of the length can call for
pub fn event_limit(len: usize) -> usize {
    12 * len + 32
}

/// Iterates to the end, or to the first error, then polls a few times more.
pub fn drive<R: Read>(r: &R, mode: Mode, len: usize) -> Result<Run, String> {
    let mut run = Run { evs: vec![], marks: vec![], lazy: vec![], fail: None, io: None };
    let mut it = from_reader_with(r, flags(mode)).into_iter();
    let limit = event_limit(len);
    let mut kept: Vec<Event<'_>> = vec![];
    loop {
        if run.evs.len() + kept.len() > limit {
            return Err(format!("more than {} events from {} bytes", limit, len));
        }
        match it.next() {
            None => {
                for _ in 0..3 {
                    if it.next().is_some() {
                        return Err("an event or error after the end of the iteration".into());
                    }
                }
                break;
            }
            Some(Err(e)) => {
                run.fail = Some(fail(&e, false));
                let ioe: io::Error = e.into();
                run.io = Some((ioe.kind(), ioe.get_ref().map(|x| x.to_string()), ioe.raw_os_error()));
                // What follows an error is not specified, but it may not panic or hang
                for _ in 0..3 {
                    let _ = it.next();
                }
                break;
            }
            Some(Ok(mut e)) => {
                run.marks.push((e.start(), e.end()));
                run.lazy.push(matches!(e.data(), EventData::Scalar(n) if n.content.is_unevaluated()));
                match mode {
                    Mode::Eager => {
                        if let EventData::Scalar(n) = e.data() {
                            if !n.content.is_evaluated() {
                                return Err("an unevaluated scalar without the lazy flag".into());
                            }
                        }
                        run.evs.push(model(e.data(), None).map_err(|e| format!("eager scalar: {}", e))?);
                    }
                    Mode::LazyNow => match eval_by_ref(&mut e)? {
                        Some(err) => {
                            run.fail = Some(fail(&err, true));
                            return Ok(run);
                        }
                        None => run.evs.push(model(e.data(), None).map_err(|e| format!("evaluated: {}", e))?),
                    },
                    Mode::LazyClone => {
                        let l = match e.data() {
                            EventData::Scalar(n) => Some(n.content.clone().evaluate()),
                            _ => None,
                        };
                        match model(e.data(), l) {
                            Ok(m) => run.evs.push(m),
                            Err(err) => {
                                run.fail = Some(fail(&err, true));
                                return Ok(run);
                            }
                        }
                    }
                    Mode::LazyAfter | Mode::LazyBack => kept.push(e),
                }
            }
        }
    }
    drop(it);
    if mode == Mode::LazyAfter {
        for mut e in kept {
            match eval_by_ref(&mut e)? {
                Some(err) => {
                    run.fail = Some(fail(&err, true));
                    return Ok(run);
                }
                None => run.evs.push(model(e.data(), None).map_err(|e| format!("evaluated: {}", e))?),
            }
        }
    } else if mode == Mode::LazyBack {
        // Only the last evaluation failure met counts, as it is the first in the stream
        let mut evs = vec![];
        let mut bad = None;
        let n = kept.len();
        for (i, e) in kept.into_iter().rev().enumerate() {
            let l = match e.data() {
                EventData::Scalar(n) => Some(n.content.clone().evaluate()),
                _ => None,
            };
            match model(e.data(), l) {
                Ok(m) => evs.push(m),
                Err(err) => {
                    bad = Some((n - 1 - i, fail(&err, true)));
                    evs.push(Ev::StreamEnd);
                }
            }
        }
        evs.reverse();
        if let Some((i, f)) = bad {
            evs.truncate(i);
            run.fail = Some(f);
        }
        run.evs = evs;
    }
    Ok(run)
}

/// Evaluates in place and checks what that promises; Some is the evaluation's error.
pub fn eval_by_ref(e: &mut Event<'_>) -> Result<Option<yary::Error>, String> {
    if let EventData::Scalar(n) = e.data_mut() {
        if n.content.is_evaluated() == n.content.is_unevaluated() {
            return Err("is_evaluated and is_unevaluated agree".into());
        }
        let before = n.content.clone();
        let by_value = before.clone().evaluate();
        let err = match (n.content.evaluate_by_ref(), by_value) {
            (Ok(a), Ok(b)) => {
                if *a != b {
                    return Err(format!("evaluate_by_ref {:?} but evaluate {:?}", a, b));
                }
                None
            }
            (Err(a), Err(b)) => {
                if cat(a.classify()) != cat(b.classify()) {
                    return Err(format!("evaluate_by_ref fails with {} but evaluate with {}", a, b));
                }
                Some(a)
            }
            (Ok(a), Err(b)) => return Err(format!("evaluate_by_ref {:?} but evaluate fails: {}", a, b)),
            (Err(a), Ok(b)) => return Err(format!("evaluate_by_ref fails: {}, but evaluate {:?}", a, b)),
        };
        if !n.content.is_evaluated() {
            return Err("not evaluated after evaluate_by_ref".into());
        }
        match &n.content {
            ScalarLike::Eager(s) => {
                if err.is_some() && !s.data().is_empty() {
                    return Err(format!("{:?} left after a failed evaluation", s));
                }
            }
            ScalarLike::Lazy(_) => return Err("still lazy after evaluate_by_ref".into()),
        }
        return Ok(err);
    }
    Ok(None)
}

/// What a scripted byte source does
#[derive(Clone, Debug)]
pub enum Op {
    /// Give at most this many bytes
    Give(usize),
    Interrupt,
    /// Fail for good (kind, payload, raw os error)
    Fail(io::ErrorKind, Option<String>, Option<i32>),
}

/// Gives `data` following `ops`, the last of which is repeated
pub struct Source {
    pub data: Vec<u8>,
    pub pos: usize,
    pub ops: Vec<Op>,
    pub at: usize,
    pub eofs: usize,
}

impl Source {
    pub fn new(data: &[u8], ops: Vec<Op>) -> Self {
        Source { data: data.to_vec(), pos: 0, ops, at: 0, eofs: 0 }
    }
}

impl io::Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let op = if self.ops.is_empty() {
            Op::Give(usize::MAX)
        } else {
            let i = self.at.min(self.ops.len() - 1);
            // An interruption that is last is not repeated for ever
            if self.at >= self.ops.len() && matches!(self.ops[i], Op::Interrupt) {
                Op::Give(usize::MAX)
            } else {
                self.ops[i].clone()
            }
        };
        self.at += 1;
        match op {
            Op::Give(n) => {
                let n = n.max(1).min(buf.len()).min(self.data.len() - self.pos);
                if n == 0 && !buf.is_empty() {
                    self.eofs += 1;
                    if self.eofs > 100_000 {
                        panic!("yary: reads on and on after the end of the source");
                    }
                }
                buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
                self.pos += n;
                Ok(n)
            }
            Op::Interrupt => Err(io::Error::from(io::ErrorKind::Interrupted)),
            Op::Fail(k, p, os) => Err(match (p, os) {
                (_, Some(n)) => io::Error::from_raw_os_error(n),
                (Some(p), None) => io::Error::new(k, p),
                (None, None) => io::Error::from(k),
            }),
        }
    }
}

pub fn run_str(s: &str, mode: Mode) -> Result<Run, String> {
    drive(&yary::reader::from_utf8(s), mode, s.len())
}

pub fn run_bytes(b: &[u8], mode: Mode) -> Result<Run, String> {
    match yary::reader::try_from_bytes(b) {
        Ok(r) => drive(&r, mode, b.len()),
        Err(e) => Ok(Run { evs: vec![], marks: vec![], lazy: vec![], fail: Some(fail(&e, false)), io: None }),
    }
}

pub fn run_read(b: &[u8], ops: Vec<Op>, mode: Mode) -> Result<Run, String> {
    drive(&yary::reader::from_read(Source::new(b, ops)), mode, b.len())
}

pub fn compact(evs: &[Ev]) -> String {
    let mut s = String::new();
    for e in evs {
        s.push_str("\n    ");
        s.push_str(&match e {
            Ev::DocStart { version, tags, implicit } if *tags == default_tags() => {
                format!("+DOC {:?} implicit={}", version, implicit)
            }
            Ev::Scalar { anchor: None, tag: None, kind, style, value } => {
                format!("=VAL {:?} {:?} {:?}", kind, style, value)
            }
            e => format!("{:?}", e),
        });
    }
    s
}

/// First difference between expected and seen events
pub fn diff(want: &[Ev], run: &Run) -> Option<String> {
    let n = want.iter().zip(&run.evs).take_while(|(a, b)| a == b).count();
    if n == want.len() && n == run.evs.len() && run.fail.is_none() {
        return None;
    }
    let w = want.get(n).map_or("the end".to_string(), |e| compact(std::slice::from_ref(e)).trim().to_string());
    let g = run.evs.get(n).map_or_else(
        || run.fail.as_ref().map_or("the end".to_string(), |f| format!("{:?}", f)),
        |e| compact(std::slice::from_ref(e)).trim().to_string(),
    );
    let tail = match &run.fail {
        Some(f) if n < run.evs.len() => format!(" (later {:?})", f),
        _ => String::new(),
    };
    Some(format!("event {}: expected {}, got {}{}", n, w, g, tail))
}

//! Checks over arbitrary inputs, readers and ways of driving: C01 to C04, C21 to C25.

use std::io;

use yary::event::flag::{O_LAZY, O_NIL};
use yary::event::types::{Event, EventData, ScalarLike};
use yary::event::{from_reader, from_reader_with};

use crate::common::*;
use crate::engine::{Ctx, Src};
use crate::ev::*;
use crate::gen::*;
use crate::p_struct::{around_events, bad_escape, AROUND};

// ---- C01 ----

pub fn c01(c: &mut Ctx) -> Result<(), String> {
    let text = any_text(c);
    let mut bytes = text.into_bytes();
    if c.src.pct(15) {
        c.label("bytes changed");
        let n = c.src.range(1, 4);
        for _ in 0..n {
            let at = c.src.below(bytes.len() + 1);
            let b = *c.src.pick(&[0x80u8, 0xbf, 0xc2, 0xe2, 0xf0, 0xff, 0xfe, 0xc0, 0xed, 0x85, 0xa8, 0x00, 0x0a]);
            if c.src.pct(50) || at == bytes.len() {
                bytes.insert(at, b);
            } else {
                bytes[at] = b;
            }
        }
    }
    if c.src.pct(10) {
        let p = padding(&mut c.src, &bytes);
        let mut v = p.into_bytes();
        v.extend_from_slice(&bytes);
        bytes = v;
        c.label("across a buffer's end");
    }
    c.input(&bytes);
    if bytes.len() > 3 {
        c.nontrivial();
    }
    let mut vias = vec![(Via::Bytes, Mode::Eager)];
    vias.push((any_via(&mut c.src, bytes.len()), *c.src.pick(&[Mode::LazyNow, Mode::LazyClone, Mode::LazyAfter, Mode::LazyBack])));
    vias.push((Via::Read(chunk_ops(&mut c.src, bytes.len())), any_mode(&mut c.src)));
    for (via, mode) in vias {
        c.notes.clear();
        c.note(format!("{:?} {:?}", via, mode));
        let r = run_via(&bytes, &via, mode)?;
        let ended = r.evs.last() == Some(&Ev::StreamEnd);
        if r.fail.is_none() && !ended {
            return Err(format!("{:?} {:?}: neither the stream end nor an error: {}", via, mode, compact(&r.evs)));
        }
        if let Some(f) = &r.fail {
            if f.text.is_empty() {
                return Err(format!("{:?} {:?}: an error without a message", via, mode));
            }
            c.label("error");
        }
    }
    Ok(())
}

// ---- C02 ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Slot {
    Root,
    Seq,
    Key,
    Val,
}

/// Checks a sequence of events against the documented grammar and the roles of nodes
pub fn grammar(evs: &[Ev], complete: bool) -> Result<(), String> {
    enum S {
        Start,
        Docs(usize),
        Doc,
        End,
    }
    let mut s = S::Start;
    let mut stack: Vec<Slot> = vec![];
    let mut root_done = false;
    for (i, e) in evs.iter().enumerate() {
        let at = |m: &str| format!("event {} {:?}: {}", i, e, m);
        match (&s, e) {
            (S::Start, Ev::StreamStart) => s = S::Docs(0),
            (S::Start, _) => return Err(at("the stream must start first")),
            (S::End, _) => return Err(at("follows the stream end")),
            (S::Docs(n), Ev::DocStart { tags, implicit, .. }) => {
                if !tags.contains_key("!") || !tags.contains_key("!!") {
                    return Err(at("lacks the default handles"));
                }
                let _ = (n, implicit);
                s = S::Doc;
                root_done = false;
                stack.clear();
            }
            (S::Docs(n), Ev::StreamEnd) => {
                if *n == 0 {
                    return Err(at("a stream has at least one document"));
                }
                s = S::End;
            }
            (S::Docs(_), _) => return Err(at("outside of a document")),
            (S::Doc, Ev::StreamStart) | (S::Doc, Ev::StreamEnd) | (S::Doc, Ev::DocStart { .. }) => {
                return Err(at("inside of a document"))
            }
            (S::Doc, Ev::DocEnd { .. }) => {
                if !stack.is_empty() {
                    return Err(at("collections are open"));
                }
                s = S::Docs(1);
            }
            (S::Doc, Ev::SeqEnd) => match stack.pop() {
                Some(Slot::Seq) => after(&mut stack),
                o => return Err(at(&format!("ends {:?}", o))),
            },
            (S::Doc, Ev::MapEnd) => match stack.pop() {
                Some(Slot::Key) => after(&mut stack),
                o => return Err(at(&format!("ends {:?}", o))),
            },
            (S::Doc, node) => {
                let slot = match stack.last() {
                    None => {
                        if root_done {
                            return Err(at("a second root node"));
                        }
                        root_done = true;
                        Slot::Root
                    }
                    Some(x) => *x,
                };
                let role = match slot {
                    Slot::Root => Kind::Root,
                    Slot::Seq => Kind::Entry,
                    Slot::Key => Kind::Key,
                    Slot::Val => Kind::Value,
                };
                match node {
                    Ev::Scalar { kind, .. } | Ev::SeqStart { kind, .. } | Ev::MapStart { kind, .. } if *kind != role => {
                        return Err(at(&format!("its role is {:?}", role)))
                    }
                    _ => {}
                }
                match node {
                    Ev::SeqStart { .. } => stack.push(Slot::Seq),
                    Ev::MapStart { .. } => stack.push(Slot::Key),
                    _ => after(&mut stack),
                }
            }
        }
    }
    let ended = matches!(s, S::End);
    if ended != complete {
        return Err(format!("the stream {} but {} error was reported", if ended { "ended" } else { "did not end" }, if complete { "no" } else { "an" }));
    }
    Ok(())
}

fn after(stack: &mut Vec<Slot>) {
    if let Some(t) = stack.last_mut() {
        *t = match *t {
            Slot::Key => Slot::Val,
            Slot::Val => Slot::Key,
            x => x,
        }
    }
}

pub fn c02(c: &mut Ctx) -> Result<(), String> {
    let text = any_text(c);
    c.input(text.as_bytes());
    let via = any_via(&mut c.src, text.len());
    let lazy = *c.src.pick(&[Mode::LazyNow, Mode::LazyAfter]);
    for (via, mode) in [(Via::Str, Mode::Eager), (via, lazy)] {
        let r = run_via(text.as_bytes(), &via, mode)?;
        if r.evs.len() > 5 {
            c.nontrivial();
        }
        c.label(if r.fail.is_some() { "rejected" } else { "accepted" });
        // evaluation errors end our run, not the iteration
        let complete = r.fail.is_none();
        if r.fail.as_ref().map_or(false, |f| f.eval) {
            continue;
        }
        grammar(&r.evs, complete).map_err(|e| format!("{:?} {:?}: {}: {}{:?}", via, mode, e, compact(&r.evs), r.fail))?;
    }
    Ok(())
}

// ---- C03 ----

/// Documents far apart, over more buffers than a handful
fn many_buffers(c: &mut Ctx) -> String {
    let cfg = any_cfg(&mut c.src);
    // the buffers grow with each other
    let (target, far) = match c.src.pct(3) {
        true => (2_500_000, 60_000),
        false => (*c.src.pick(&[100_000usize, 180_000, 300_000, 500_000]), *c.src.pick(&[2000usize, 9000, 40_000])),
    };
    let mut t = String::new();
    let mut n = 0;
    while t.len() < target && n < 120 {
        let d = stream(c, Cfg { docs: 2, budget: 10, ..cfg.clone() }, 2);
        t.push_str(&d.text);
        if !t.ends_with(is_brk) {
            t.push('\n');
        }
        t.push_str("...\n#");
        let k = c.src.range(1, far);
        t.push_str(&"c".repeat(k));
        t.push('\n');
        n += 1;
    }
    t
}

fn long_text(c: &mut Ctx) -> String {
    if c.src.pct(30) {
        c.label("many buffers");
        return many_buffers(c);
    }
    // several buffers of text, with something to split everywhere
    let cfg = any_cfg(&mut c.src);
    let target = *c.src.pick(&[9000usize, 20000, 40000, 70000]);
    let mut t = String::new();
    let mut n = 0;
    while t.len() < target && n < 400 {
        let d = stream(c, Cfg { docs: 2, ..cfg.clone() }, 20);
        if !t.is_empty() {
            if !t.ends_with(is_brk) {
                t.push('\n');
            }
            t.push_str("...\n");
        }
        t.push_str(&d.text);
        n += 1;
    }
    t
}

pub fn c03(c: &mut Ctx) -> Result<(), String> {
    let text = match c.src.weighted(&[30, 50, 3, 6, 6]) {
        0 => any_text(c),
        4 => {
            // lines of one scalar, with breaks of two bytes, over the end of a buffer
            let mut cfg = any_cfg(&mut c.src);
            cfg.brk = *c.src.pick(&[Brk::CrLf, Brk::CrLf, Brk::Mixed]);
            cfg.multi = 60;
            let t = stream(c, cfg, 2).text;
            c.label("CR LF across a buffer's end");
            format!("{}{}", padding(&mut c.src, t.as_bytes()), t)
        }
        1 => {
            let t = any_text(c);
            c.label("across a buffer's end");
            format!("{}{}", padding(&mut c.src, t.as_bytes()), t)
        }
        2 => {
            c.label("several buffers");
            let t = long_text(c);
            if c.src.pct(30) {
                mutate(&mut c.src, &t)
            } else {
                t
            }
        }
        _ => {
            // one token over the end of a buffer
            c.label("long token");
            let n = *c.src.pick(&[8192usize, 8192, 8192, 24576]) - c.src.below(40) + c.src.below(8);
            let unit = *c.src.pick(&["x", "é", "x y ", "😀", "a:b", "x\n  ", "\r\n ", "\\n", "''", "中\u{2028} "]);
            let body = unit.repeat(n / unit.len() + 1);
            let tail = *c.src.pick(&["", "\n", "é\n", "😀", "\r\n", "\r", " # c\n", "\\", "\n...\n"]);
            match c.src.below(9) {
                0 => format!("- {}{}", body, tail),
                1 => format!("\"{}\"{}", body, tail),
                2 => format!("'{}'{}", body, tail),
                3 => format!("- |\n  {}{}", body.replace('\r', ""), tail),
                4 => format!("- >-\n  {}{}\n- b", body.replace('\r', ""), tail),
                5 => format!("# {}{}\n- a", body, tail),
                6 => format!("[{}, {}]{}", body, tail, tail),
                7 => format!("!<{}> a{}", "t".repeat(n), tail),
                _ => format!("&{} a{}", "A".repeat(n), tail),
            }
        }
    };
    c.input(text.as_bytes());
    let lazy = *c.src.pick(&[Mode::LazyNow, Mode::LazyAfter, Mode::LazyBack]);
    let modes = if c.src.pct(60) { vec![Mode::Eager] } else { vec![Mode::Eager, lazy] };
    for mode in modes {
        let base = run_str(&text, mode)?;
        if base.evs.len() > 5 || base.evs.len() > 2 && base.fail.is_some() {
            c.nontrivial();
        }
        let mut vias = vec![Via::Bytes, Via::Read(vec![Op::Give(usize::MAX)]), Via::Read(chunk_ops(&mut c.src, text.len()))];
        if text.len() < 20000 {
            vias.push(Via::Read(vec![Op::Interrupt, Op::Give(1), Op::Interrupt, Op::Give(2), Op::Give(1)]));
        }
        for via in vias {
            let r = run_via(text.as_bytes(), &via, mode)?;
            if !r.same(&base) {
                return Err(match diff(&base.evs, &Run { fail: None, ..r.clone() }) {
                    Some(d) => format!("{:?} {:?}: {} (ends with {:?} instead of {:?})", via, mode, d, r.fail, base.fail),
                    None => format!("{:?} {:?}: ends with {:?} instead of {:?}", via, mode, r.fail, base.fail),
                });
            }
            if r.marks.len() != base.marks.len() {
                return Err(format!("{:?} {:?}: {} events instead of {}", via, mode, r.marks.len(), base.marks.len()));
            }
        }
    }
    Ok(())
}

// ---- C04 ----

pub fn c04(c: &mut Ctx) -> Result<(), String> {
    if c.src.pct(25) {
        return c04_faulty(c);
    }
    let text = if c.src.pct(40) {
        let mut cfg = any_cfg(&mut c.src);
        cfg.multi = cfg.multi.max(25);
        cfg.styles = *c.src.pick(&[[4, 4, 4, 4, 4], [1, 0, 0, 5, 5], [10, 5, 5, 0, 0]]);
        let d = stream(c, cfg, 6);
        d.text
    } else {
        any_text(c)
    };
    c.input(text.as_bytes());
    let base = run_str(&text, Mode::Eager)?;
    let scalars = base.evs.iter().filter(|e| matches!(e, Ev::Scalar { .. })).count();
    if scalars > 1 {
        c.nontrivial();
    }
    let two = [Mode::LazyNow, *c.src.pick(&[Mode::LazyClone, Mode::LazyAfter, Mode::LazyBack])];
    for mode in two {
        let via = any_via(&mut c.src, text.len());
        let r = run_via(text.as_bytes(), &via, mode)?;
        if base.fail.is_none() {
            if let Some(d) = diff(&base.evs, &r) {
                return Err(format!("{:?} {:?}: {}", via, mode, d));
            }
        } else {
            c.label("rejected");
            if r.fail.is_none() {
                return Err(format!("{:?} {:?}: accepted, but eager processing fails with {:?}: {}", via, mode, base.fail, compact(&r.evs)));
            }
            let n = base.evs.len().min(r.evs.len());
            if base.evs[..n] != r.evs[..n] {
                return Err(format!("{:?} {:?}: different events before the error: {} and {}", via, mode, compact(&base.evs), compact(&r.evs)));
            }
        }
    }
    Ok(())
}

/// One scalar whose content is faulty: everything else is unaffected, and it alone fails
fn c04_faulty(c: &mut Ctx) -> Result<(), String> {
    c.label("one faulty scalar");
    c.nontrivial();
    let a = &AROUND[c.src.below(AROUND.len())];
    let bad = bad_escape(c);
    let k = c.src.below(4);
    let pre: String = (0..k).map(|_| *c.src.pick(&["a", " b", "\\n", "\\\\", "é", "\\\"", "#", ": "])).collect();
    let k = c.src.below(4);
    let post: String = (0..k).map(|_| *c.src.pick(&["z", " y", "\\n", "\\\\", "'", "\\\"", "-"])).collect();
    let text = format!("{}\"{}{}z{}\"{}", a.pre, pre, bad, post, a.post);
    c.input(text.as_bytes());
    let want = around_events(a, "PLACE", Style::Single)?;
    let eager = run_str(&text, Mode::Eager)?;
    let ecat = match &eager.fail {
        Some(f) => f.cat,
        None => return Err("accepted when eager".into()),
    };
    let r = yary::reader::from_utf8(&text);
    let o = yary::reader::from_read(Source::new(text.as_bytes(), vec![Op::Give(3)]));
    let owned = c.src.pct(40);
    let mut got: Vec<Result<Event<'_>, yary::Error>> =
        if owned { from_reader_with(&o, O_LAZY).into_iter().collect() } else { from_reader_with(&r, O_LAZY).into_iter().collect() };
    if got.len() != want.len() {
        return Err(format!("{} events instead of {}", got.len(), want.len()));
    }
    let back = c.src.pct(50);
    let mut order: Vec<usize> = (0..want.len()).collect();
    if back {
        order.reverse();
    }
    for i in order {
        let ev = match &mut got[i] {
            Ok(e) => e,
            Err(e) => return Err(format!("event {} fails: {}", i, e)),
        };
        let faulty = matches!(&want[i], Ev::Scalar { value, .. } if value == "PLACE");
        if !faulty {
            if let Some(e) = eval_by_ref(ev)? {
                return Err(format!("event {}: another scalar fails: {}", i, e));
            }
            let m = model(ev.data(), None).map_err(|e| format!("{}", e))?;
            if m != want[i] {
                return Err(format!("event {}: {:?} instead of {:?}", i, m, want[i]));
            }
            continue;
        }
        let copy = ev.clone();
        match eval_by_ref(ev)? {
            None => return Err("the faulty scalar evaluates".into()),
            Some(e) if cat(e.classify()) != ecat => return Err(format!("fails with {:?}, but eagerly with {:?}", e, ecat)),
            Some(_) => {}
        }
        // what is left behind is an empty, evaluated scalar
        match ev.data() {
            EventData::Scalar(n) => match &n.content {
                ScalarLike::Eager(s) if s.data().is_empty() => {}
                o => return Err(format!("{:?} is left behind", o)),
            },
            _ => return Err("not a scalar".into()),
        }
        match copy.data() {
            EventData::Scalar(n) if n.content.is_unevaluated() => {}
            o => return Err(format!("a clone was changed: {:?}", o)),
        }
    }
    Ok(())
}

// ---- C21 ----

/// Gives data up to a point, then fails
#[derive(Debug)]
struct Marked(u64);
impl std::fmt::Display for Marked {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected fault {}", self.0)
    }
}
impl std::error::Error for Marked {}

struct Faulty {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    at: usize,
    kind: io::ErrorKind,
    how: usize,
    interrupts: usize,
    flip: usize,
    resume: bool,
    failed: std::rc::Rc<std::cell::Cell<usize>>,
    rest: Vec<u8>,
}

impl io::Read for Faulty {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.interrupts > 0 {
            // so many before every read
            self.flip = (self.flip + 1) % (self.interrupts + 1);
            if self.flip != 0 {
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        if self.pos == self.data.len() && !(self.resume && self.failed.get() > 0) {
            self.failed.set(self.failed.get() + 1);
            if self.resume {
                let rest = std::mem::take(&mut self.rest);
                self.data.extend_from_slice(&rest);
            }
            return Err(match self.how {
                0 => io::Error::from(self.kind),
                1 => io::Error::new(self.kind, Marked(77)),
                _ => io::Error::from_raw_os_error(5),
            });
        }
        let n = self.sizes[self.at % self.sizes.len()].max(1).min(buf.len()).min(self.data.len() - self.pos);
        self.at += 1;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::NotFound,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::InvalidData,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::NotConnected,
    io::ErrorKind::AddrInUse,
    io::ErrorKind::AlreadyExists,
    io::ErrorKind::Unsupported,
    io::ErrorKind::OutOfMemory,
];

pub fn c21(c: &mut Ctx) -> Result<(), String> {
    let text = match c.src.weighted(&[30, 40, 8]) {
        0 => {
            let cfg = any_cfg(&mut c.src);
            stream(c, cfg, 4).text
        }
        1 => {
            let cfg = any_cfg(&mut c.src);
            let t = stream(c, Cfg { docs: 4, ..cfg }, 6).text;
            format!("{}{}", padding(&mut c.src, t.as_bytes()), t)
        }
        _ => {
            c.label("several buffers");
            long_text(c)
        }
    };
    let bytes = text.as_bytes();
    c.input(bytes);
    let mode = *c.src.pick(&[Mode::Eager, Mode::Eager, Mode::LazyNow, Mode::LazyAfter]);
    let base = run_str(&text, mode)?;
    if base.fail.is_some() {
        return Err(format!("the text itself fails: {:?}", base.fail));
    }
    let at = match c.src.below(5) {
        0 => bytes.len(),
        1 => 8192.min(bytes.len()),
        2 => (8192 + c.src.below(3)).min(bytes.len()),
        _ => c.src.below(bytes.len() + 1),
    };
    let kind = *c.src.pick(KINDS);
    let how = c.src.below(3);
    let n = c.src.range(1, 4);
    let sizes: Vec<usize> = (0..n).map(|_| *c.src.pick(&[1usize, 2, 7, 100, 4096, 8192, 16384, 100000])).collect();
    let interrupts = if c.src.pct(30) { *c.src.pick(&[1usize, 1, 2, 3, 4, 7, 16, 100]) } else { 0 };
    let resume = c.src.pct(25);
    c.note(format!("fails after {} bytes with {:?} (payload {}), pieces {:?}, interrupts {}, resumes {}", at, kind, how, sizes, interrupts, resume));
    let failed = std::rc::Rc::new(std::cell::Cell::new(0));
    let src = Faulty {
        data: bytes[..at].to_vec(),
        pos: 0,
        sizes,
        at: 0,
        kind,
        how,
        interrupts,
        flip: 0,
        resume,
        failed: failed.clone(),
        rest: bytes[at..].to_vec(),
    };
    let reader = yary::reader::from_read(src);
    let flags = if mode == Mode::Eager { O_NIL } else { O_LAZY };
    let mut it = from_reader_with(&reader, flags).into_iter();
    let mut evs = vec![];
    let mut kept = vec![];
    let err = loop {
        if evs.len() > base.evs.len() + kept.len() {
            return Err("more events than the text has".into());
        }
        match it.next() {
            None => return Err(format!("a clean end after a fault: {}", compact(&evs))),
            Some(Err(e)) => break e,
            Some(Ok(mut e)) => {
                if mode == Mode::LazyAfter {
                    kept.push(e);
                    if kept.len() > base.evs.len() {
                        return Err("more events than the text has".into());
                    }
                } else {
                    if let Some(x) = eval_by_ref(&mut e)? {
                        return Err(format!("a scalar fails to evaluate: {}", x));
                    }
                    evs.push(model(e.data(), None).map_err(|e| format!("{}", e))?);
                }
            }
        }
    };
    for mut e in kept {
        if let Some(x) = eval_by_ref(&mut e)? {
            return Err(format!("a scalar fails to evaluate: {}", x));
        }
        evs.push(model(e.data(), None).map_err(|e| format!("{}", e))?);
    }
    if evs.len() > 1 {
        c.nontrivial();
    }
    c.label(if evs.len() > 1 { "events before the fault" } else { "no events before the fault" });
    if evs.len() > base.evs.len() || evs[..] != base.evs[..evs.len()] {
        return Err(format!("the events before the fault are not a prefix of the text's: {} and {}", compact(&evs), compact(&base.evs)));
    }
    if evs.last() == Some(&Ev::StreamEnd) {
        return Err("the stream ended before the fault".into());
    }
    if cat(err.classify()) != Cat::Io {
        return Err(format!("category {:?} for {}", cat(err.classify()), err));
    }
    if failed.get() == 0 {
        return Err(format!("an I/O error without a fault: {}", err));
    }
    let io: io::Error = err.into();
    match how {
        0 => {
            if io.kind() != kind {
                return Err(format!("kind {:?} instead of {:?}", io.kind(), kind));
            }
        }
        1 => {
            if io.kind() != kind {
                return Err(format!("kind {:?} instead of {:?}", io.kind(), kind));
            }
            match io.get_ref().and_then(|e| e.downcast_ref::<Marked>()) {
                Some(Marked(77)) => {}
                o => return Err(format!("payload {:?}", o)),
            }
        }
        _ => {
            if io.raw_os_error() != Some(5) {
                return Err(format!("operating system error {:?}", io.raw_os_error()));
            }
        }
    }
    for _ in 0..3 {
        match it.next() {
            None => {}
            Some(x) => return Err(format!("{:?} after the error", x.map(|e| model(e.data(), None).ok()))),
        }
    }
    Ok(())
}

// ---- C22 ----

pub fn c22(c: &mut Ctx) -> Result<(), String> {
    let mut cfg = any_cfg(&mut c.src);
    cfg.unicode = *c.src.pick(&[0, 10, 60]);
    let t = stream(c, cfg, 4).text;
    let text = if c.src.pct(55) {
        c.label("across a buffer's end");
        format!("{}{}", padding(&mut c.src, t.as_bytes()), t)
    } else {
        t
    };
    let mode = *c.src.pick(&[Mode::Eager, Mode::Eager, Mode::LazyAfter]);
    let base = run_str(&text, mode)?;
    if let Some(f) = base.fail {
        return Err(format!("the text itself fails: {:?}", f));
    }
    if c.src.pct(20) {
        // valid, however it is split
        c.label("valid");
        c.input(text.as_bytes());
        if !text.is_ascii() {
            c.nontrivial();
        }
        let ops = chunk_ops(&mut c.src, text.len());
        for via in [Via::Bytes, Via::Read(ops), Via::Read(vec![Op::Give(1)])] {
            let r = run_via(text.as_bytes(), &via, mode)?;
            if let Some(d) = diff(&base.evs, &r) {
                return Err(format!("{:?}: {}", via, d));
            }
        }
        return Ok(());
    }
    let mut bytes = text.clone().into_bytes();
    let wide: Vec<usize> = text.char_indices().filter(|(_, ch)| ch.len_utf8() > 1).map(|(i, _)| i).collect();
    if !wide.is_empty() && c.src.pct(35) {
        // a character is cut short
        c.label("character cut short");
        let i = *c.src.pick(&wide);
        let l = text[i..].chars().next().unwrap().len_utf8();
        if c.src.pct(30) {
            let k = c.src.range(1, l - 1);
            bytes.truncate(i + k);
        } else {
            let k = c.src.below(l);
            bytes.remove(i + k);
        }
    } else {
        const BAD: &[&[u8]] = &[
            &[0x80],
            &[0xbf],
            &[0xc0, 0x80],
            &[0xc1, 0xbf],
            &[0xe0, 0x80, 0x80],
            &[0xe0, 0x9f, 0xbf],
            &[0xf0, 0x80, 0x80, 0x80],
            &[0xf0, 0x8f, 0xbf, 0xbf],
            &[0xed, 0xa0, 0x80],
            &[0xed, 0xbf, 0xbf],
            &[0xf4, 0x90, 0x80, 0x80],
            &[0xf5, 0x80, 0x80, 0x80],
            &[0xff],
            &[0xfe],
            &[0xff, 0xfe],
            &[0xc3],
            &[0xe2, 0x82],
            &[0xe2],
            &[0xf0, 0x9f, 0x98],
            &[0xf0, 0x9f],
            &[0xf0],
            &[0xf8, 0x88, 0x80, 0x80, 0x80],
            &[0xc2],
        ];
        let bad = *c.src.pick(BAD);
        let mut at = match c.src.below(8) {
            0 => bytes.len(),
            1 => 0,
            2 if bytes.len() > 8192 => 8192 - c.src.below(5),
            // a comment and white space hold text, too
            _ => c.src.below(bytes.len() + 1),
        };
        while !text.is_char_boundary(at) {
            at -= 1;
        }
        bytes.splice(at..at, bad.iter().copied());
        if at == text.len() {
            c.label("at the end");
        }
    }
    if std::str::from_utf8(&bytes).is_ok() {
        return Ok(());
    }
    c.input(&bytes);
    c.nontrivial();
    // a slice
    match yary::reader::try_from_bytes(&bytes) {
        Ok(_) => return Err("the byte slice was accepted".into()),
        Err(e) => {
            let k = cat(e.classify());
            if k != Cat::Data {
                return Err(format!("the byte slice was rejected as {:?}: {}", k, e));
            }
        }
    }
    // a source
    let ops = chunk_ops(&mut c.src, bytes.len());
    let r = run_read(&bytes, ops.clone(), mode)?;
    match &r.fail {
        None => return Err(format!("{:?}: accepted: {}", ops, compact(&r.evs))),
        Some(f) if f.cat != Cat::Data || f.eval => return Err(format!("{:?}: rejected as {:?}", ops, f)),
        _ => {}
    }
    if r.evs.len() > base.evs.len() || r.evs[..] != base.evs[..r.evs.len()] {
        return Err(format!("{:?}: the events before the fault are not a prefix of the text's: {}", ops, compact(&r.evs)));
    }
    c.label(if r.evs.len() > 1 { "events before the fault" } else { "no events before the fault" });
    Ok(())
}

// ---- C23 ----

pub fn c23(c: &mut Ctx) -> Result<(), String> {
    let text = if c.src.pct(60) {
        let mut cfg = any_cfg(&mut c.src);
        cfg.unicode = *c.src.pick(&[0, 10, 60]);
        stream(c, cfg, 4).text
    } else {
        any_text(c)
    };
    let text = if c.src.pct(20) { format!("{}{}", padding(&mut c.src, text.as_bytes()), text) } else { text };
    c.input(text.as_bytes());
    let base = run_str(&text, Mode::Eager)?;
    if base.marks.len() > 5 {
        c.nontrivial();
    }
    let check = |r: &Run, what: &str| -> Result<(), String> {
        let mut last = 0;
        for (i, (s, e)) in r.marks.iter().enumerate() {
            let ev = r.evs.get(i);
            if s > e {
                return Err(format!("{}: event {} {:?} starts at {} after its end {}", what, i, ev, s, e));
            }
            if *e > text.len() {
                return Err(format!("{}: event {} {:?} ends at {} of {} bytes", what, i, ev, e, text.len()));
            }
            if *s < last {
                return Err(format!("{}: event {} {:?} starts at {}, before {} of the one before it", what, i, ev, s, last));
            }
            last = *s;
        }
        Ok(())
    };
    check(&base, "string")?;
    if base.fail.is_none() {
        if let Some((_, e)) = base.marks.last() {
            if *e != text.len() {
                return Err(format!("the stream ends at {} of {} bytes", e, text.len()));
            }
        }
    }
    let again = run_str(&text, Mode::Eager)?;
    if again.marks != base.marks {
        return Err("a second run has other positions".into());
    }
    let ops = chunk_ops(&mut c.src, text.len());
    let lazy = *c.src.pick(&[Mode::LazyNow, Mode::LazyAfter]);
    for (via, mode) in [(Via::Read(ops.clone()), Mode::Eager), (Via::Str, lazy), (Via::Bytes, Mode::Eager), (Via::Read(ops), lazy)] {
        let r = run_via(text.as_bytes(), &via, mode)?;
        check(&r, &format!("{:?} {:?}", via, mode))?;
        let n = if base.fail.is_none() { base.marks.len() } else { base.marks.len().min(r.marks.len()) };
        if r.marks.len() < n || r.marks[..n] != base.marks[..n] {
            let i = r.marks.iter().zip(&base.marks).take_while(|(a, b)| a == b).count();
            return Err(format!(
                "{:?} {:?}: event {} is at {:?} instead of {:?}: {:?}",
                via,
                mode,
                i,
                r.marks.get(i),
                base.marks.get(i),
                base.evs.get(i)
            ));
        }
    }
    Ok(())
}

// ---- C24 ----

fn shuffled(src: &mut Src, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        let j = i - src.below(i + 1);
        v.swap(i, j);
    }
    v
}

pub fn c24(c: &mut Ctx) -> Result<(), String> {
    if c.src.pct(15) {
        return borrowed(c);
    }
    let text = match c.src.weighted(&[45, 30, 5]) {
        0 => {
            let cfg = any_cfg(&mut c.src);
            stream(c, cfg, 4).text
        }
        1 => {
            let cfg = any_cfg(&mut c.src);
            let t = stream(c, Cfg { docs: 4, ..cfg }, 6).text;
            format!("{}{}", padding(&mut c.src, t.as_bytes()), t)
        }
        _ => {
            c.label("several buffers");
            long_text(c)
        }
    };
    c.input(text.as_bytes());
    let base = run_str(&text, Mode::Eager)?;
    if let Some(f) = base.fail {
        return Err(format!("the text itself fails: {:?}", f));
    }
    if base.evs.len() > 6 {
        c.nontrivial();
    }
    let lazy = c.src.pct(60);
    let flags = if lazy { O_LAZY } else { O_NIL };
    if c.src.pct(60) {
        let ops = chunk_ops(&mut c.src, text.len());
        let r = yary::reader::from_read(Source::new(text.as_bytes(), ops));
        keep(c, &r, flags, &base.evs)
    } else {
        let r = yary::reader::from_utf8(&text);
        keep(c, &r, flags, &base.evs)
    }
}

fn keep<R: yary::reader::Read>(c: &mut Ctx, r: &R, flags: yary::event::flag::Flags, want: &[Ev]) -> Result<(), String> {
    let mut kept: Vec<(usize, Event<'_>)> = vec![];
    let mut it = from_reader_with(r, flags).into_iter();
    let mut i = 0;
    while let Some(e) = it.next() {
        let e = e.map_err(|e| format!("event {} fails: {}", i, e))?;
        if i >= want.len() {
            return Err("too many events".into());
        }
        // what it is when produced
        let m = model(e.data(), None).map_err(|e| format!("event {}: {}", i, e))?;
        if m != want[i] {
            return Err(format!("event {}: {:?} instead of {:?}", i, m, want[i]));
        }
        if c.src.pct(20) {
            kept.push((i, e.clone()));
        }
        kept.push((i, e));
        // some are used early, some are dropped
        if c.src.pct(10) {
            let k = c.src.below(kept.len());
            let (n, e) = &mut kept[k];
            if let Some(x) = eval_by_ref(e)? {
                return Err(format!("event {} fails later: {}", n, x));
            }
        }
        if c.src.pct(3) {
            let k = c.src.below(kept.len());
            kept.remove(k);
        }
        i += 1;
    }
    if i != want.len() {
        return Err(format!("{} events instead of {}", i, want.len()));
    }
    drop(it);
    let order = shuffled(&mut c.src, kept.len());
    for k in order {
        let n = kept[k].0;
        let copy = kept[k].1.clone();
        if c.src.pct(50) {
            if let Some(x) = eval_by_ref(&mut kept[k].1)? {
                return Err(format!("event {} fails later: {}", n, x));
            }
        }
        for e in [&kept[k].1, &copy] {
            let m = model(e.data(), None).map_err(|e| format!("event {} later: {}", n, e))?;
            if m != want[n] {
                return Err(format!("event {} later: {:?} instead of {:?}", n, m, want[n]));
            }
        }
    }
    Ok(())
}

/// Scalars that need no rewriting lie in the source: where, is known for these
fn borrowed(c: &mut Ctx) -> Result<(), String> {
    c.label("borrowed");
    // (style, place in the text, content), in order
    let mut want: Vec<(Style, usize, String)> = vec![];
    let mut t = String::new();
    let quoted = |src: &mut Src, key: bool| -> (Style, String) {
        let single = src.pct(50);
        let words = if !key && src.pct(2) { *src.pick(&[30, 90, 300, 1500, 6000]) } else { src.count(4, 60) };
        let mut s = String::new();
        for i in 0..words {
            if i > 0 || src.pct(10) {
                for _ in 0..1 + src.below(2) {
                    s.push(*src.pick(&[' ', ' ', ' ', '\t']));
                }
            }
            for _ in 0..1 + src.below(5) {
                let ch = match src.below(5) {
                    0 => *src.pick(&['#', ':', ',', '[', '}', '-', '?', '&', '*', '!', '|', '>', '%', '@']),
                    1 => any_char(src),
                    _ => *src.pick(&['a', 'b', '0', 'Z']),
                };
                if ch != '\'' && ch != '"' && ch != '\\' && !is_brk(ch) {
                    s.push(ch);
                }
            }
        }
        if single && src.pct(20) {
            s.push('"');
        }
        if single && src.pct(20) {
            s.push('\\');
            s.push('n');
        }
        if !single && src.pct(20) {
            s.push('\'');
        }
        (if single { Style::Single } else { Style::Double }, s)
    };
    let plain = |src: &mut Src, key: bool| -> String {
        let mut s = String::new();
        let words = if !key && src.pct(2) { *src.pick(&[30, 90, 300, 1500, 6000]) } else { src.count(3, 55) };
        for i in 0..1 + words {
            if i > 0 {
                s.push_str(*src.pick(&[" ", " ", "  ", "\t"]));
            }
            s.push(*src.pick(&['a', 'b', '0', 'Z', 'é', '中', '😀']));
            for _ in 0..src.below(4) {
                s.push(*src.pick(&['a', '7', '#', '-', 'é', '中', '\'', '"', '&', '\\', '%', '.']));
            }
        }
        s
    };
    fn put(t: &mut String, want: &mut Vec<(Style, usize, String)>, st: Style, s: String) {
        let q = match st {
            Style::Single => "'",
            Style::Double => "\"",
            _ => "",
        };
        t.push_str(q);
        if !s.is_empty() {
            want.push((st, t.len(), s.clone()));
        }
        t.push_str(&s);
        t.push_str(q);
    }
    // a block mapping whose values are quoted, or flow collections
    let seq = c.src.pct(40);
    for _ in 0..1 + c.src.count(4, 60) {
        if seq {
            t.push_str("- ");
        } else {
            let (st, k) = if c.src.pct(60) { (Style::Plain, plain(&mut c.src, true)) } else { quoted(&mut c.src, true) };
            put(&mut t, &mut want, st, k);
            t.push_str(*c.src.pick(&[": ", " : ", ":  "]));
        }
        match c.src.below(4) {
            0 => {
                let (st, v) = quoted(&mut c.src, false);
                put(&mut t, &mut want, st, v);
            }
            1 => {
                t.push('[');
                for i in 0..c.src.count(4, 55) {
                    if i > 0 {
                        t.push_str(*c.src.pick(&[",", ", ", ",\n  "]));
                    }
                    let (st, v) = if c.src.pct(60) { (Style::Plain, plain(&mut c.src, false)) } else { quoted(&mut c.src, false) };
                    put(&mut t, &mut want, st, v);
                    if c.src.pct(20) {
                        t.push(' ');
                    }
                }
                t.push(']');
            }
            2 => {
                t.push('{');
                for i in 0..1 + c.src.count(3, 55) {
                    if i > 0 {
                        t.push_str(", ");
                    }
                    let k = plain(&mut c.src, true);
                    put(&mut t, &mut want, Style::Plain, k);
                    t.push_str(": ");
                    let (st, v) = if c.src.pct(60) { (Style::Plain, plain(&mut c.src, false)) } else { quoted(&mut c.src, false) };
                    put(&mut t, &mut want, st, v);
                }
                t.push('}');
            }
            _ => {
                t.push_str(*c.src.pick(&["!t ", "&a ", "!!str &a "]));
                let (st, v) = quoted(&mut c.src, false);
                put(&mut t, &mut want, st, v);
            }
        }
        t.push_str(*c.src.pick(&["\n", "\n", " # c\n", "\r\n"]));
    }
    c.input(t.as_bytes());
    if want.len() > 2 {
        c.nontrivial();
    }
    let bytes = c.src.pct(30);
    let lazy = c.src.pct(50);
    let flags = if lazy { O_LAZY } else { O_NIL };
    if bytes {
        let r = yary::reader::try_from_bytes(t.as_bytes()).map_err(|e| format!("{}", e))?;
        placed(&t, from_reader_with(&r, flags).into_iter(), &want)
    } else {
        let r = yary::reader::from_utf8(&t);
        placed(&t, from_reader_with(&r, flags).into_iter(), &want)
    }
}

fn placed<'a>(text: &str, it: impl Iterator<Item = yary::error::Result<Event<'a>>>, want: &[(Style, usize, String)]) -> Result<(), String> {
    let lo = text.as_ptr() as usize;
    let mut n = 0;
    for (i, e) in it.enumerate() {
        let e = e.map_err(|e| format!("event {}: {}", i, e))?;
        let content = match e.data() {
            EventData::Scalar(s) => s.content.clone(),
            _ => continue,
        };
        let s = content.evaluate().map_err(|e| format!("event {}: {}", i, e))?;
        let v = s.data();
        if v.is_empty() {
            continue;
        }
        let (st, at, w) = want.get(n).ok_or_else(|| format!("event {}: an additional scalar {:?}", i, v))?;
        n += 1;
        if style(s.style()) != *st || **v != **w {
            return Err(format!("event {}: expected {:?} {:?}, got {:?} {:?}", i, st, w, s.style(), v));
        }
        let p = v.as_ptr() as usize;
        if p != lo + at {
            return Err(format!("event {}: the {:?} scalar {:?} was copied: it does not lie in the source at byte {}", i, st, v, at));
        }
    }
    if n != want.len() {
        return Err(format!("{} scalars instead of {}", n, want.len()));
    }
    Ok(())
}

// ---- C25 ----

pub fn c25(c: &mut Ctx) -> Result<(), String> {
    let text = any_text(c);
    let text = if c.src.pct(8) { format!("{}{}", padding(&mut c.src, text.as_bytes()), text) } else { text };
    c.input(text.as_bytes());
    let lazy = c.src.pct(40);
    let mode = if lazy { Mode::LazyAfter } else { Mode::Eager };
    let base = run_iter(&text, lazy)?;
    if base.0.len() > 6 {
        c.nontrivial();
    }
    let again = run_iter(&text, lazy)?;
    if again != base {
        return Err(format!("a second run differs: {:?} and {:?}", base, again));
    }
    let _ = mode;
    if c.src.pct(50) {
        let r = yary::reader::from_utf8(&text);
        drive_history(c, &r, lazy, &base, false)?;
        if c.src.pct(30) {
            // the same reader once more
            c.label("reader used twice");
            drive_history(c, &r, lazy, &base, false)?;
        }
        Ok(())
    } else {
        let ops = chunk_ops(&mut c.src, text.len());
        let r = yary::reader::from_read(Source::new(text.as_bytes(), ops));
        if c.src.pct(20) {
            // given to others that do not use it
            let _ = from_reader(&r);
            let _ = from_reader_with(&r, O_LAZY).into_iter();
        }
        drive_history(c, &r, lazy, &base, true)?;
        if c.src.pct(30) {
            c.label("reader used twice");
            intrude(c, &r, None)?;
        }
        Ok(())
    }
}

/// Events and positions; an event that does not evaluate is given by its error
type Seen = (Vec<(Option<Ev>, usize, usize)>, Option<(Cat, String)>);

fn see(e: &Event<'_>) -> (Option<Ev>, usize, usize) {
    (model(e.data(), None).ok(), e.start(), e.end())
}

fn run_iter(text: &str, lazy: bool) -> Result<Seen, String> {
    let r = yary::reader::from_utf8(text);
    let mut out = vec![];
    let limit = event_limit(text.len());
    for e in from_reader_with(&r, if lazy { O_LAZY } else { O_NIL }) {
        match e {
            Ok(e) => out.push(see(&e)),
            Err(e) => return Ok((out, Some((cat(e.classify()), format!("{}", e))))),
        }
        if out.len() > limit {
            return Err("too many events".into());
        }
    }
    Ok((out, None))
}

/// Another stream of events from a reader that is in use. It starts over (what it should see is given), or fails.
fn intrude<R: yary::reader::Read>(c: &mut Ctx, r: &R, want: Option<&Seen>) -> Result<(), String> {
    let mut it = from_reader_with(r, if c.src.pct(50) { O_LAZY } else { O_NIL }).into_iter();
    match want {
        None => {
            match it.next() {
                Some(Err(e)) if cat(e.classify()) != Cat::Io => {}
                Some(Err(e)) => return Err(format!("a byte source used again fails as if it could not be read: {}", e)),
                Some(Ok(e)) => return Err(format!("a byte source used again gives {:?}", see(&e))),
                None => return Err("a byte source used again gives nothing".into()),
            }
            for _ in 0..2 {
                if it.next().is_some() {
                    return Err("something after the error".into());
                }
            }
        }
        Some(_) => {
            let n = c.src.below(4);
            for _ in 0..n {
                let _ = it.next();
            }
        }
    }
    Ok(())
}

fn drive_history<R: yary::reader::Read>(c: &mut Ctx, r: &R, lazy: bool, base: &Seen, once: bool) -> Result<(), String> {
    let flags = if lazy {
        *c.src.pick(&[O_LAZY, O_NIL | O_LAZY, yary::event::flag::Flags::new().lazy(), O_NIL.lazy().no_lazy().lazy()])
    } else {
        *c.src.pick(&[O_NIL, O_LAZY.no_lazy(), O_LAZY.nil(), yary::event::flag::Flags::new()])
    };
    let mut events = if !lazy && c.src.pct(50) { from_reader(r) } else { from_reader_with(r, flags) };
    let mut out = vec![];
    let mut err = None;
    let mut ended = 0;
    let mut steps = 0;
    let mut asked = false;
    let total = base.0.len() + 1;
    let mut log = vec![];
    let mut take = |x: Option<Result<Event<'_>, yary::Error>>, ended: &mut usize| -> Result<bool, String> {
        match x {
            None => {
                *ended += 1;
                Ok(false)
            }
            Some(Ok(e)) => {
                if *ended > 0 {
                    return Err(format!("{:?} after the end", see(&e)));
                }
                out.push(see(&e));
                Ok(true)
            }
            Some(Err(e)) => {
                if *ended > 0 {
                    return Err(format!("error {} after the end", e));
                }
                if err.is_some() {
                    return Err("a second error".into());
                }
                err = Some((cat(e.classify()), format!("{}", e)));
                Ok(true)
            }
        }
    };
    while ended < 4 && steps < total + 50 {
        let k = c.src.range(1, 5);
        if steps > 0 && c.src.pct(3) {
            // only what follows a first request is in use for sure
            log.push("another stream");
            let want = if once { None } else { Some(base) };
            if asked {
                intrude(c, r, want)?;
            }
        }
        let x = c.src.below(7);
        asked |= x != 4;
        match x {
            0 => {
                log.push("next");
                take(events.iter().next(), &mut ended)?;
            }
            1 => {
                log.push("one iterator, some");
                let mut it = events.iter();
                for _ in 0..k {
                    take(it.next(), &mut ended)?;
                }
            }
            2 => {
                log.push("take");
                let got: Vec<_> = events.iter().take(k).collect();
                for x in got {
                    take(Some(x), &mut ended)?;
                }
            }
            3 => {
                log.push("by value and back");
                let mut it = events.into_iter();
                for _ in 0..k {
                    take(it.next(), &mut ended)?;
                }
                events = it.into_inner();
            }
            4 => {
                log.push("by value and back, unused");
                events = events.into_iter().into_inner();
                let _ = events.iter();
            }
            5 => {
                log.push("by_ref in a loop");
                let mut it = events.iter();
                let mut n = 0;
                for x in it.by_ref() {
                    take(Some(x), &mut ended)?;
                    n += 1;
                    if n >= k {
                        break;
                    }
                }
                take(it.next(), &mut ended)?;
            }
            _ => {
                log.push("constructors");
                let mut it = yary::event::EventIterRef::new(&mut events);
                take(it.next(), &mut ended)?;
                let mut it = yary::event::EventIter::new(events);
                take(it.next(), &mut ended)?;
                events = it.into_inner();
            }
        }
        steps += 1;
    }
    while ended < 4 {
        if !take(events.iter().next(), &mut ended)? && steps > 3 * total + 200 {
            break;
        }
        steps += 1;
    }
    if out != base.0 || err != base.1 {
        let i = out.iter().zip(&base.0).take_while(|(a, b)| a == b).count();
        log.truncate(60);
        return Err(format!(
            "event {}: {:?} instead of {:?} (error {:?} instead of {:?}) after {:?}",
            i,
            out.get(i),
            base.0.get(i),
            err,
            base.1,
            log
        ));
    }
    Ok(())
}

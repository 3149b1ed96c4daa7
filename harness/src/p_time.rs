//! Time in proportion to the input: C31.

use crate::engine::{Ctx, Src};
use crate::ev::*;
use crate::p_misc::{unit, big_ops};
use yary::event::flag::{O_LAZY, O_NIL};
use yary::event::from_reader_with;
use yary::event::types::EventData;
use yary::reader::Read;

#[repr(C)]
struct Spec {
    sec: i64,
    nsec: i64,
}

extern "C" {
    fn clock_gettime(id: i32, t: *mut Spec) -> i32;
}

/// Seconds of processor time this thread has used
fn cpu() -> f64 {
    let mut t = Spec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    if unsafe { clock_gettime(3, &mut t) } != 0 {
        return 0.0;
    }
    t.sec as f64 + t.nsec as f64 * 1e-9
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum How {
    Eager,
    Lazy,
    Evaluate,
}

fn spend<R: Read>(r: &R, how: How) -> usize {
    let mut n = 0;
    for e in from_reader_with(r, if how == How::Eager { O_NIL } else { O_LAZY }) {
        n += 1;
        match e {
            Err(_) => return n,
            Ok(e) => {
                if how == How::Evaluate {
                    if let EventData::Scalar(s) = e.data() {
                        let _ = s.content.clone().evaluate();
                    }
                }
            }
        }
    }
    n
}

fn time(t: &str, how: How, ops: &Option<Vec<Op>>) -> f64 {
    let a;
    match ops {
        None => {
            let r = yary::reader::from_utf8(t);
            a = cpu();
            spend(&r, how);
        }
        Some(ops) => {
            let r = yary::reader::from_read(Source::new(t.as_bytes(), ops.clone()));
            a = cpu();
            spend(&r, how);
            let b = cpu() - a;
            return b;
        }
    }
    cpu() - a
}

const TIMES: usize = 8;

/// (before, repeated, between, repeated as often, after)
type Form = (&'static str, &'static str, &'static str, &'static str, &'static str);

/// One token, or a stretch of what is skipped as one
const TOKENS: &[Form] = &[
    ("", "word ", "", "", "\n"),
    ("", "word\n", "", "", ""),
    ("- \"", "a\\n", "", "", "\"\n"),
    ("- \"", "a\n", "", "", "\"\n"),
    ("- \"", "a\\\n  ", "", "", "\"\n"),
    ("- '", "a''", "", "", "'\n"),
    ("- '", "a\n\n", "", "", "'\n"),
    ("- '", "   ", "", "", "'\n"),
    ("- |\n", "  text\n", "", "", ""),
    ("- >\n", "  text\n", "", "", ""),
    ("- >\n", "  text\n   more\n", "", "", ""),
    ("- |+\n", "\n", "", "", ""),
    ("- |\n  a\n", "\n", "", "", "- b\n"),
    ("- >\n", "   text\n\n", "", "", ""),
    ("# ", "comment ", "", "", "\n- a\n"),
    ("- a\n", "# comment\n", "", "", "- b\n"),
    ("- a\n", "\n", "", "", "- b\n"),
    ("- a", " ", "", "", "\n- b\n"),
    ("a", "\n", "", "", "b\n"),
    ("- !<", "a%41", "", "", "> b\n"),
    ("- &a", "b", "", "", " b\n"),
    ("- *a", "b", "", "", "\n"),
    ("%TAG !a! ", "b%41", "", "", "\n--- !a!b c\n"),
    ("%TAG !a", "b", "", "", "! c\n--- a\n"),
    ("", "a:", "", "", "\n"),
    ("", "a#", "", "", "\n"),
    ("- [a", "\n", "", "", "]\n"),
];

/// Many tokens
const MANY: &[Form] = &[
    ("", "[", "a", "]", "\n"),
    ("", "{a: ", "b", "}", "\n"),
    ("", "[[],", "a", "]", "\n"),
    ("", "[\n", "a", "]\n", "\n"),
    ("", "- ", "a\n", "", ""),
    ("", "? ", "a\n", "", ""),
    ("", ": ", "a\n", "", ""),
    ("- &a !b\n", "&c !d\n", "", "", "e\n"),
    ("[", "a, ", "", "", "]\n"),
    ("{", "a: b,\n", "", "", "}\n"),
    ("[", "a: b,", "", "", "]\n"),
    ("[", "? a : b,", "", "", "]\n"),
    ("{", "\"a\":b,", "", "", "}\n"),
    ("[", "*a , ", "", "", "]\n"),
    ("", "- a\n", "", "", ""),
    ("", "a: b\n", "", "", ""),
    ("", "? a\n", "", "", ""),
    ("", ": a\n", "", "", ""),
    ("", "- !!str a\n", "", "", ""),
    ("", "- !<a%41> &b 'c'\n", "", "", ""),
    ("", "- *a\n", "", "", ""),
    ("", "- |\n  a\n", "", "", ""),
    ("", "- >-\n\n  a\n\n", "", "", ""),
    ("", "- \"a\\x41\"\n", "", "", ""),
    ("", "- 'a''b'\n", "", "", ""),
    ("", "- a\n  b\n", "", "", ""),
    ("", "-\n", "", "", ""),
    ("", "a:\n- b\n", "", "", ""),
    ("", "a:\n  b: c\n", "", "", ""),
    ("", "- a: b\n  c: d\n", "", "", ""),
    ("", "- - a\n", "", "", ""),
    ("", "- [a, b]\n", "", "", ""),
    ("", "[a]: b\n", "", "", ""),
    ("", "--- a\n", "", "", ""),
    ("", "--- a\n...\n", "", "", ""),
    ("", "%YAML 1.2\n--- a\n...\n", "", "", ""),
    ("", "%TAG !a! b\n--- !a!c d\n...\n", "", "", ""),
    ("", "...\n", "", "", ""),
    ("", "---\n", "", "", ""),
    ("- - - - -\n", "# c\n        - b\n", "", "", ""),
    ("a:\n b:\n  c:\n", "   - d\n   # e\n\n", "", "", ""),
];

/// (before, repeated, between, repeated as often, after), with `@` in place of a number
const NUMBERED: &[Form] = &[
    ("", "%TAG !a@! b@\n", "---\n", "- !a@!c d\n", "...\n"),
    ("", "%TAG !a@! b\n", "---\n", "- !!c d\n", ""),
    ("", "- &a@ b\n", "", "- *a@\n", ""),
    ("[", "&a@ b,", "", "*a@ ,", "]\n"),
    ("", "a@: b\n", "", "c@: !d@ e\n", ""),
    ("{", "a@: b,\n", "", "c@: !d@ e,\n", "}\n"),
    ("", "--- &a@ b\n", "", "--- !<@> c\n...\n", ""),
    ("", "%TAG !a! b@\n--- !a!@ d\n...\n", "", "%TAG !a@! b\n--- !a@!b\n...\n", ""),
];

fn numbered(src: &mut Src, f: &Form) -> (String, String) {
    let size = src.range(30_000, 90_000);
    let n = size / (f.1.len() + f.3.len() + 8) + 1;
    let t = |n: usize| {
        let r = |s: &str| (0..n).map(|i| s.replace('@', &(1_000_000 + i).to_string())).collect::<String>();
        format!("{}{}{}{}{}", f.0, r(f.1), f.2, r(f.3), f.4)
    };
    (t(n), t(n * TIMES))
}

fn sizes(src: &mut Src, f: &Form, factor: usize) -> (String, String) {
    let size = src.range(30_000, 90_000) * factor;
    let n = size / (f.1.len() + f.3.len()) + 1;
    let t = |n: usize| format!("{}{}{}{}{}", f.0, f.1.repeat(n), f.2, f.3.repeat(n), f.4);
    (t(n), t(n * TIMES))
}

pub fn c31(c: &mut Ctx) -> Result<(), String> {
    let mut token = false;
    let ops = if c.src.pct(40) { Some(big_ops(&mut c.src)) } else { None };
    let (small, large) = match c.src.below(5) {
        0 | 1 => {
            c.label("a stream");
            let body = c.src.pct(50);
            let u = match unit(c, body) {
                Some(u) => u,
                None => return Ok(()),
            };
            let n = c.src.range(30_000, 90_000) / u.text.len() + 1;
            (u.text.repeat(n), u.text.repeat(n * TIMES))
        }
        2 => {
            c.label("a token");
            token = true;
            let f = *c.src.pick(TOKENS);
            sizes(&mut c.src, &f, if ops.is_some() { 4 } else { 1 })
        }
        3 => {
            c.label("many names");
            let f = *c.src.pick(NUMBERED);
            numbered(&mut c.src, &f)
        }
        _ => {
            c.label("many tokens");
            let f = *c.src.pick(MANY);
            sizes(&mut c.src, &f, 1)
        }
    };
    c.nontrivial();
    c.input(small.as_bytes());
    let how = *c.src.pick(&[How::Eager, How::Eager, How::Lazy, How::Evaluate]);
    // a token is scanned again whenever there is more of it to be read
    let most = if token && ops.is_some() { 5.0 } else { 3.5 } * TIMES as f64;
    let mut best = (f64::MAX, f64::MAX);
    for _ in 0..8 {
        let a = time(&small, how, &ops).max(20e-6);
        let b = time(&large, how, &ops);
        best = (best.0.min(a), best.1.min(b));
        if best.1 <= most * best.0 {
            return Ok(());
        }
    }
    Err(format!(
        "{} bytes take {:.6} s, but what is {} times as long takes {:.6} s ({:?}, read from a source: {}): {:?}...",
        small.len(),
        best.0,
        TIMES,
        best.1,
        how,
        ops.is_some(),
        small.chars().take(60).collect::<String>()
    ))
}

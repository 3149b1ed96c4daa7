//! Input generators and comparisons shared by the checks.

use crate::engine::{Ctx, Src};
use crate::ev::*;
use crate::gen::*;

/// A way of handing bytes to yary
#[derive(Clone, Debug)]
pub enum Via {
    Str,
    Bytes,
    Read(Vec<Op>),
}

pub fn run_via(text: &[u8], via: &Via, mode: Mode) -> Result<Run, String> {
    match via {
        Via::Str => match std::str::from_utf8(text) {
            Ok(s) => run_str(s, mode),
            Err(_) => run_bytes(text, mode),
        },
        Via::Bytes => run_bytes(text, mode),
        Via::Read(ops) => run_read(text, ops.clone(), mode),
    }
}

/// A script for a byte source
pub fn chunk_ops(src: &mut Src, len: usize) -> Vec<Op> {
    match src.below(5) {
        0 => vec![Op::Give(usize::MAX)],
        1 => vec![Op::Give(1)],
        2 => {
            let n = src.range(1, 12);
            vec![Op::Give(n)]
        }
        3 => {
            let n = src.range(1, 12);
            (0..n)
                .map(|_| if src.pct(30) { Op::Interrupt } else { Op::Give(src.range(1, (len / 2).max(2))) })
                .chain(Some(Op::Give(usize::MAX)))
                .collect()
        }
        _ => {
            let n = *src.pick(&[8191, 8192, 8193, 4096, 1000, 3]);
            let m = *src.pick(&[1, 2, 3, 8192, 16384, 100]);
            vec![Op::Give(n), Op::Interrupt, Op::Give(m), Op::Give(1), Op::Give(usize::MAX)]
        }
    }
}

pub fn any_via(src: &mut Src, len: usize) -> Via {
    match src.below(4) {
        0 => Via::Str,
        1 => Via::Bytes,
        _ => Via::Read(chunk_ops(src, len)),
    }
}

pub fn any_mode(src: &mut Src) -> Mode {
    *src.pick(&MODES)
}

/// Moves the text so that one of its offsets falls on a boundary of the reader's buffers. Only a comment is added.
pub fn padding(src: &mut Src, text: &[u8]) -> String {
    let edge = *src.pick(&[8192usize, 8192, 8192, 24576]);
    let len = text.len().min(7000);
    // the offset of the byte that the buffer ends with
    let mut k = src.below(len + 1);
    if src.pct(40) {
        // one after which more than one continuation is possible
        let class = *src.pick(&["\r", "\r", "\\", "'", "\"", ":", "-", ".", "%", "!", "#", "?", "\n", "\t", " ", "\u{80}"]);
        let at: Vec<usize> = (0..len).filter(|&i| if class == "\u{80}" { text[i] >= 0x80 } else { text[i] == class.as_bytes()[0] }).collect();
        if !at.is_empty() {
            k = *src.pick(&at);
        }
    }
    let n = (edge - k).saturating_sub(2);
    let unit = if src.pct(20) { "é" } else { "x" };
    let mut s = String::from("#");
    while s.len() < n {
        s.push_str(unit);
    }
    s.push('\n');
    s
}

/// Compares what is reported for a text with what was meant, in several ways of obtaining it
pub fn check_text(c: &mut Ctx, text: &str, want: &[Ev]) -> Result<(), String> {
    c.input(text.as_bytes());
    let r = run_str(text, Mode::Eager)?;
    if let Some(d) = diff(want, &r) {
        return Err(d);
    }
    if c.src.pct(50) {
        let via = any_via(&mut c.src, text.len());
        let mode = any_mode(&mut c.src);
        let r = run_via(text.as_bytes(), &via, mode)?;
        if let Some(d) = diff(want, &r) {
            return Err(format!("{:?} {:?}: {}", via, mode, d));
        }
    }
    if c.src.pct(12) {
        let p = padding(&mut c.src, text.as_bytes());
        let ops = chunk_ops(&mut c.src, text.len());
        let mode = any_mode(&mut c.src);
        let whole = format!("{}{}", p, text);
        let r = run_read(whole.as_bytes(), ops.clone(), mode)?;
        if let Some(d) = diff(want, &r) {
            return Err(format!("after a comment of {} bytes, read with {:?} {:?}: {}", p.len(), ops, mode, d));
        }
    }
    Ok(())
}

/// A generated stream
pub struct Doc {
    pub text: String,
    pub evs: Vec<Ev>,
    pub f: Feats,
}

pub fn stream(c: &mut Ctx, cfg: Cfg, spike: usize) -> Doc {
    let mut g = Gen::new(&mut c.src, cfg);
    g.spike(spike);
    g.stream();
    Doc { text: g.out, evs: g.evs, f: g.f }
}

/// Some configuration: any emphasis
pub fn any_cfg(src: &mut Src) -> Cfg {
    let mut c = Cfg::default();
    c.depth = src.range(1, 5);
    c.width = src.range(1, 5);
    match src.below(10) {
        0 => c.flow = 0,
        1 => c.flow = 90,
        2 => c.explicit = 50,
        3 => c.props = 50,
        4 => {
            c.comments = 40;
            c.blanks = 30;
            c.trail = 30;
        }
        5 => c.w_empty = 8,
        6 => c.styles = [1, 3, 3, 6, 6],
        7 => c.multi = 50,
        8 => {
            c.docs = 8;
            c.directives = 50;
            c.budget = 6;
        }
        _ => {}
    }
    if src.pct(15) {
        c.brk = *src.pick(&[Brk::CrLf, Brk::Cr, Brk::Mixed, Brk::Mixed, Brk::Nel]);
    }
    if src.pct(15) {
        c.unicode = 40;
    }
    c
}

pub const FRAGMENTS: &[&str] = &[
    "a", "b", "key", ": ", ":", "- ", "-", "? ", "?", "[", "]", "{", "}", ",", ", ", "\n", "\n", "\n ", "\n  ", "\n    ", "\r\n",
    "\r", "\u{85}", "\u{2028}", " ", "  ", "\t", "#", " #", " # c", "'", "''", "\"", "\\", "\\n", "\\x41", "\\u00e9", "\\U0001F600",
    "\\x", "\\u12", "\\\n", "|", ">", "|-", ">+", "|2", ">1-", "|+9", "&a", "&", "*a", "*", "!", "!!", "!t", "!!str", "!<x>", "!<",
    "!a!b", "%", "%41", "%YAML 1.2", "%TAG ! x", "%TAG !a! tag:x,", "---", "...", "--- ", "\n---", "\n...", "\n--- ", "\n...\n",
    "\n---\n", "@", "`", "é", "中", "😀", "\u{feff}", "\u{a0}", "\0", "\x07", "\x7f", "a: b", "- a\n", "a: b\n", "[a, b]", "{a: b}",
    "\"q\"", "'q'", "key: |\n  text\n", "- >\n  t\n\n  u\n", "~", "null", "=", "<<", "\n\n", "\n\t", " \n", "x y", "a:b", "a#b", "-a",
    "?a", ":a", "--", "..", "::", "- - ", "? - ", ": - ", "- ? ", "&a !t ", "!t &a ", "*a :", "%%", "18446744073709551616", "%YAML 1.256",
];

/// Changes something in a text
pub fn mutate(src: &mut Src, text: &str) -> String {
    let mut v: Vec<char> = text.chars().collect();
    let n = 1 + src.count(4, 50);
    for _ in 0..n {
        let len = v.len();
        let at = src.below(len + 1);
        match src.below(10) {
            0 | 1 => {
                let f = *src.pick(FRAGMENTS);
                v.splice(at..at, f.chars());
            }
            2 => {
                let k = (1 + src.count(6, 60)).min(len - at);
                v.drain(at..at + k);
            }
            3 if at < len => {
                let f = *src.pick(FRAGMENTS);
                v.splice(at..at + 1, f.chars());
            }
            4 => {
                // cut off
                v.truncate(at);
            }
            5 => {
                // double a stretch somewhere else
                let k = (1 + src.count(30, 80)).min(len - at);
                let piece: Vec<char> = v[at..at + k].to_vec();
                let to = src.below(len + 1);
                v.splice(to..to, piece);
            }
            6 => {
                // change a line's indentation
                let starts: Vec<usize> =
                    std::iter::once(0).chain(v.iter().enumerate().filter(|(_, c)| is_brk(**c)).map(|(i, _)| i + 1)).collect();
                let s = *src.pick(&starts);
                if s < v.len() && v[s] == ' ' && src.pct(50) {
                    v.remove(s);
                } else {
                    v.insert(s, *src.pick(&[' ', ' ', '\t']));
                }
            }
            7 if at < len => {
                // exchange neighbours
                let o = src.below(len);
                v.swap(at, o);
            }
            8 if at < len => v[at] = any_char(src),
            _ => {
                // replace one character of structure by another
                const S: &[char] = &['-', ':', '?', ',', '[', ']', '{', '}', '\n', ' ', '#', '&', '*', '!', '|', '>', '\'', '"', '%'];
                let idx: Vec<usize> = v.iter().enumerate().filter(|(_, c)| S.contains(c)).map(|(i, _)| i).collect();
                if !idx.is_empty() {
                    let i = *src.pick(&idx);
                    v[i] = *src.pick(S);
                }
            }
        }
    }
    v.into_iter().collect()
}

/// Any text at all, biased to what looks like YAML
pub fn any_text(c: &mut Ctx) -> String {
    let big = c.thorough;
    match c.src.weighted(&[10, 30, 20, 6, 8, 8]) {
        0 => {
            c.label("valid");
            let cfg = any_cfg(&mut c.src);
            stream(c, cfg, 4).text
        }
        1 => {
            c.label("mutated");
            let cfg = any_cfg(&mut c.src);
            let d = stream(c, cfg, 2);
            mutate(&mut c.src, &d.text)
        }
        2 => {
            c.label("fragments");
            let n = 1 + c.src.count(60, 93);
            (0..n).map(|_| *c.src.pick(FRAGMENTS)).collect()
        }
        3 => {
            c.label("repeated");
            let k = c.src.range(1, 4);
            let unit: String = (0..k).map(|_| *c.src.pick(FRAGMENTS)).collect();
            let max = if big { 5000 } else { 300 };
            let n = c.src.range(1, max);
            let k = c.src.range(0, 3);
            let mut t: String = (0..k).map(|_| *c.src.pick(FRAGMENTS)).collect();
            t.push_str(&unit.repeat(n));
            let k = c.src.range(0, 3);
            for _ in 0..k {
                t.push_str(c.src.pick(FRAGMENTS));
            }
            t
        }
        4 => {
            c.label("characters");
            let n = 1 + c.src.count(80, 95);
            (0..n)
                .map(|_| match c.src.below(4) {
                    0 => any_char(&mut c.src),
                    1 => *c.src.pick(&['\n', ' ', '\t', '\r', '\u{85}', '\u{2028}', '\u{2029}', '\u{feff}', '\0', '\x1b']),
                    _ => *c.src.pick(&[
                        '-', ':', '?', ',', '[', ']', '{', '}', '\n', ' ', '#', '&', '*', '!', '|', '>', '\'', '"', '%', 'a', '\\', '.', '0',
                    ]),
                })
                .collect()
        }
        _ => {
            c.label("spliced");
            let cfg = any_cfg(&mut c.src);
            let a = stream(c, cfg, 0).text;
            let cfg = any_cfg(&mut c.src);
            let b = stream(c, cfg, 0).text;
            let cut = |src: &mut Src, s: &str| -> usize {
                let mut i = src.below(s.len() + 1);
                while !s.is_char_boundary(i) {
                    i -= 1;
                }
                i
            };
            let i = cut(&mut c.src, &a);
            let j = cut(&mut c.src, &b);
            format!("{}{}", &a[..i], &b[j..])
        }
    }
}

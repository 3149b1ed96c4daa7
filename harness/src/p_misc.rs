//! Checks on whole streams, on faults, on keys' limits and on scale: C19, C20, C26, C27.

use crate::common::*;
use crate::engine::{Ctx, Src};
use crate::ev::*;
use crate::gen::*;
use yary::event::flag::{O_LAZY, O_NIL};
use yary::event::types::{Event, EventData};
use yary::event::from_reader_with;
use crate::p_struct::AROUND;

// ---- C19 ----

fn is_start(e: &Ev) -> bool {
    matches!(e, Ev::DocStart { .. })
}

/// Whether anything is written in the first document: it is reported, however it is preceded
fn substantial(evs: &[Ev]) -> bool {
    match (evs.get(1), evs.get(2)) {
        (Some(Ev::DocStart { implicit: true, .. }), Some(Ev::DocEnd { .. })) => false,
        (Some(_), Some(_)) => true,
        _ => false,
    }
}

/// Some text of one or more documents
fn one_text(c: &mut Ctx) -> String {
    let cfg = Cfg { docs: 2, ..any_cfg(&mut c.src) };
    match c.src.weighted(&[55, 30, 8, 7]) {
        0 => stream(c, Cfg { docs: 1, ..cfg }, 2).text,
        1 => {
            let d = stream(c, cfg, 0);
            mutate(&mut c.src, &d.text)
        }
        2 => {
            let n = 1 + c.src.count(20, 85);
            (0..n).map(|_| *c.src.pick(FRAGMENTS)).collect()
        }
        _ => stream(c, cfg, 0).text,
    }
}

pub fn c19(c: &mut Ctx) -> Result<(), String> {
    let k = 2 + c.src.count(4, 45);
    let mut whole = String::new();
    let mut want: Vec<Ev> = vec![Ev::StreamStart];
    let mut failed: Option<(Fail, bool)> = None;
    let mut n = 0;
    for i in 0..k {
        let mut t = one_text(c);
        let sep_explicit = c.src.pct(35);
        let last = i + 1 == k;
        if !last && !t.ends_with(is_brk) {
            t.push('\n');
        }
        let alone = run_str(&t, Mode::Eager)?;
        let evs = &alone.evs;
        // what starts without content leaves nothing of its own when markers surround it
        let first_real = substantial(evs) || (alone.fail.is_some() && evs.len() <= 2);
        let directives = t.starts_with('%') || evs.get(1).map_or(false, |e| *e != Ev::doc(true) && *e != Ev::doc(false));
        if alone.fail.is_some() && (n == 0 || !first_real) {
            continue;
        }
        if n == 0 {
            if alone.fail.is_none() && !first_real {
                continue;
            }
            whole.push_str(&t);
            want.extend(evs[1..evs.len() - 1].iter().cloned());
            n += 1;
            continue;
        }
        let mut mine: Vec<Ev> = evs.iter().skip(1).cloned().collect();
        let implicit_start = matches!(mine.first(), Some(Ev::DocStart { implicit: true, .. }));
        let starts_directly = mine.first().map_or(false, is_start) && !directives && !t.starts_with("...");
        if sep_explicit && implicit_start && !directives && first_sure(&t) && first_real && content_first(&t) && alone.fail.is_none() {
            // its start becomes explicit
            whole.push_str("---\n");
            if let Some(Ev::DocStart { implicit, .. }) = mine.first_mut() {
                *implicit = false;
            }
        } else if sep_explicit && starts_directly && !implicit_start && t.starts_with("---") {
            // it brings its own marker
        } else {
            if alone.fail.is_none() && !first_real {
                continue;
            }
            whole.push_str("...\n");
            match want.last_mut() {
                Some(Ev::DocEnd { implicit }) => *implicit = false,
                _ => return Err(format!("a stream of documents that does not end with one: {}", compact(&want))),
            }
        }
        if let Some(f) = &alone.fail {
            c.label("ends with a faulty document");
            failed = Some((f.clone(), true));
            want.extend(mine);
            whole.push_str(&t);
            n += 1;
            break;
        }
        mine.pop();
        want.extend(mine);
        whole.push_str(&t);
        n += 1;
    }
    if n < 2 {
        return Ok(());
    }
    if failed.is_none() {
        want.push(Ev::StreamEnd);
    }
    c.nontrivial();
    c.input(whole.as_bytes());
    let r = run_str(&whole, Mode::Eager)?;
    same_outcome(&want, failed.as_ref().map(|f| &f.0), &r, "as a string")?;
    let via = any_via(&mut c.src, whole.len());
    let r = run_via(whole.as_bytes(), &via, Mode::Eager)?;
    same_outcome(&want, failed.as_ref().map(|f| &f.0), &r, &format!("{:?}", via))?;
    let mode = any_mode(&mut c.src);
    let r = run_via(whole.as_bytes(), &via, mode)?;
    if failed.is_none() {
        same_outcome(&want, None, &r, &format!("{:?} {:?}", via, mode))?;
    } else if r.fail.is_none() {
        return Err(format!("{:?} {:?}: the faulty document is accepted", via, mode));
    }
    Ok(())
}

/// Something other than blank and comment lines comes before any '...'
fn content_first(t: &str) -> bool {
    match t.find("...") {
        None => true,
        Some(i) => t[..i].split(is_brk).any(|l| {
            let l = l.trim();
            !l.is_empty() && !l.starts_with('#')
        }),
    }
}

/// Its first line is content, not a directive or marker or filler
fn first_sure(t: &str) -> bool {
    !t.starts_with(|ch: char| ch == '%' || ch == '.' || ch == '-' && t.starts_with("---")) && !t.contains("%YAML") && !t.contains("%TAG")
}

fn same_outcome(want: &[Ev], fail: Option<&Fail>, r: &Run, what: &str) -> Result<(), String> {
    match fail {
        None => match diff(want, r) {
            Some(d) => Err(format!("{}: {}", what, d)),
            None => Ok(()),
        },
        Some(f) => {
            let n = want.iter().zip(&r.evs).take_while(|(a, b)| a == b).count();
            if n != want.len() || n != r.evs.len() {
                return Err(format!(
                    "{}: event {}: expected {:?}, got {:?} (then {:?})",
                    what,
                    n,
                    want.get(n),
                    r.evs.get(n),
                    r.fail
                ));
            }
            match &r.fail {
                Some(g) if g.cat == f.cat => Ok(()),
                g => Err(format!("{}: ends with {:?} instead of {:?}", what, g, f)),
            }
        }
    }
}

// ---- C20 ----

/// A whole document that is faulty, and what is well formed of it
pub const LAYOUT: &[(&str, &str)] = &[
    // entries and keys out of line
    ("  - a\n - b\n", "  - a\n"),
    (" a: b\nc: d\n", " a: b\n"),
    (" - a\n- b\n", " - a\n"),
    ("a:\n    b: c\n  d: e\n", "a:\n    b: c\n"),
    ("- - a\n - b\n", "- - a\n"),
    ("- a: b\n   c: d\n", "- a: b\n   c\n"),
    ("- a: b\n c: d\n", "- a: b\n"),
    ("a: b\n c: d\n", "a: b\n c\n"),
    ("a: 'b'\n  c: d\n", "a: 'b'\n"),
    ("- 'a'\n  - b\n", "- 'a'\n"),
    ("- [a]\n  - b\n", "- [a]\n"),
    ("- *a\n  - b\n", "- *a\n"),
    ("? a\n  : b\n", "? a\n"),
    ("a:\n  - b\n - c\n", "a:\n  - b\n"),
    ("- |\n  a\n b\n", "- |\n  a\n"),
    ("a: |\n  b\n c\n", "a: |\n  b\n"),
    ("a: >\n    b\n  c: d\n", "a: >\n    b\n"),
    // collections of two kinds
    ("a: b\n- c\n", "a: b\n"),
    ("- a\nb: c\n", "- a\n"),
    ("- a\n? b\n", "- a\n"),
    ("- 'a'\n: b\n", "- 'a'\n"),
    ("? a\n- b\n", "? a\n"),
    ("? - a\n- b\n", "? - a\n"),
    ("- ? a\n: b\n", "- ? a\n"),
    ("a:\n  b: c\n  - d\n", "a:\n  b: c\n"),
    ("a:\n  - b\n  c: d\n", "a:\n  - b\n"),
    // keys without ':'
    ("a: 'b'\nc\n", "a: 'b'\n"),
    ("a: b\nc\n", "a: b\n"),
    ("a: b\nc:d\n", "a: b\n"),
    ("- a\nb\n", "- a\n"),
    ("- a\n-b\n", "- a\n"),
    ("- 'a'\n- 'b'\nc\n", "- 'a'\n- 'b'\n"),
    ("? a\nb\n", "? a\n"),
    (": a\nb\n", ": a\n"),
    ("a: 1\n? b\nc\n", "a: 1\n? b\n"),
    ("- *a\n*b\n", "- *a\n"),
    ("- [a]\n[b]\n", "- [a]\n"),
    ("a: [b]\n[c]\n", "a: [b]\n"),
    ("'a': b\n'c'\n", "'a': b\n"),
    // keys over several lines
    ("a\nb: c\n", ""),
    ("'a\n b': c\n", ""),
    ("\"a\n b\": c\n", ""),
    ("[a,\n b]: c\n", "[a,\n b]"),
    ("{a: b,\n c: d}: e\n", "{a: b,\n c: d}"),
    ("{'a\n b': c}\n", "{'a\n b'}"),
    ("{\"a\n b\": c}\n", "{\"a\n b\"}"),
    ("[a\n b: c]\n", "[a\n b]"),
    ("{a\n b: c}\n", "{a\n b}"),
    ("{[a,\n b]: c}\n", "{[a,\n b]}"),
    ("'a'\n: b\n", "'a'\n"),
    ("a\n: b\n", "a\n"),
    ("{a\n: b}\n", "{a\n}"),
    ("{'a'\n: b}\n", "{'a'\n}"),
    ("['a'\n: b]\n", "['a'\n]"),
    ("[a]\n: b\n", "[a]\n"),
    // more than one root
    ("'a'\nb\n", "'a'\n"),
    ("'a'\n'b'\n", "'a'\n"),
    ("[a]\n[b]\n", "[a]\n"),
    ("[a]\nb\n", "[a]\n"),
    ("[a]\n- b\n", "[a]\n"),
    ("[a] b\n", "[a]\n"),
    ("{a: b} c\n", "{a: b}\n"),
    ("[a]{b}\n", "[a]\n"),
    ("{a}[b]\n", "{a}\n"),
    ("[a]'b'\n", "[a]\n"),
    ("'a'[b]\n", "'a'\n"),
    ("'a' b\n", "'a'\n"),
    ("'a' 'b'\n", "'a'\n"),
    ("\"a\" b\n", "\"a\"\n"),
    ("*a b\n", "*a\n"),
    ("|\n a\nb\n", "|\n a\n"),
    (">-\n a\n[b]\n", ">-\n a\n"),
    ("--- 'a'\n'b'\n", "--- 'a'\n"),
    ("--- [a]\nb: c\n", "--- [a]\n"),
    // two values on a line
    ("a: b: c\n", "a: b\n"),
    ("a: b: c: d\n", "a: b\n"),
    ("a: 'b': c\n", "a: 'b'\n"),
    ("a: [b]: c\n", "a: [b]\n"),
    ("[a]: b: c\n", "[a]: b\n"),
    ("- a: b: c\n", "- a: b\n"),
    ("[a: b: c]\n", "[a: b]"),
    ("[a: 'b': c]\n", "[a: 'b']"),
    ("{a: b: c}\n", "{a: b}"),
    ("{a: 'b': c}\n", "{a: 'b'}"),
    // block collections where none may start
    ("a: - b\n", "a:\n"),
    ("- a: - b\n", "- a:\n"),
    ("--- - a\n", "---\n"),
    ("--- a: b\n", "--- a\n"),
    ("[- a]\n", "[]"),
    ("{- a}\n", "{}"),
    ("[a, - b]\n", "[a]"),
    ("&a - b\n", "&a\n"),
    ("!t - b\n", "!t\n"),
    // brackets and commas
    ("]\n", ""),
    ("}\n", ""),
    ("a: ]\n", "a:\n"),
    ("- }\n", "-\n"),
    ("- a\n- ]\n", "- a\n-\n"),
    ("[,]\n", "[]"),
    ("{,}\n", "{}"),
    ("[a, , b]\n", "[a]"),
    ("[a: b c: d]\n", "[a: b c]"),
    ("{a: b c: d}\n", "{a: b c}"),
    ("{'a' 'b'}\n", "{'a'}"),
    ("[[a] [b]]\n", "[[a]]"),
    ("[*a *b]\n", "[*a]"),
    ("[a\n---\nb]\n", "[a]"),
    ("{a: b\n...\n}\n", "{a: b}"),
    ("[|\n a]\n", "[]"),
    ("[>\n a]\n", "[]"),
    ("{a: |\n b}\n", "{a: }"),
    // no key after the end of a document
    ("x\n... a: b\n", "x\n... a\n"),
    ("[x]\n... - b\n", "[x]\n...\n"),
    // blank lines that lead a block scalar and are longer than the indentation of its text
    ("a: |\n    \n  b: c\n", "a: |\n"),
    ("- >\n    \n  - b\n", "- >\n"),
    ("k: |\n    \n \n  c\n", "k: |\n"),
    ("|\n   \n a\n", "|\n"),
    // quoted scalars with a document marker in them
    ("'a\n---\nb'\n", ""),
    ("\"a\n... \nb\"\n", ""),
    ("'a\n--- b'\n", ""),
    ("- \"a\n...\n", "-\n"),
    // tabs
    ("a:\n\tb: c\n", "a:\n"),
    ("a:\n\t- b\n", "a:\n"),
    ("a:\n \tb: c\n", "a:\n"),
    ("a: 'b'\n\tc: d\n", "a: 'b'\n"),
    ("\ta: b\n", ""),
    ("\t- a\n", ""),
    ("a: |\n\tb\n", "a:\n"),
    ("- >\n \tb\n", "-\n"),
    ("\t? a\n", ""),
];

/// Faulty directives, each with the document that would follow
pub const DIRECTIVE: &[&str] = &[
    "%YAML",
    "%YAML ",
    "%YAML 1",
    "%YAML 1.",
    "%YAML .2",
    "%YAML 1.2.3",
    "%YAML 1.2 x",
    "%YAML a.b",
    "%YAML 1.a",
    "%YAML 1,2",
    "%YAML 1 .2",
    "%YAML 1. 2",
    "%YAML 1.256",
    "%YAML 256.1",
    "%YAML 1.1000",
    "%YAML -1.2",
    "%YAML +1.2",
    "%YAML 1.-2",
    "%YAML 4294967297.1",
    "%YAML 1.4294967298",
    "%YAML 18446744073709551617.2",
    "%YAML 99999999999999999999.1",
    "%YAMLX 1.2",
    "%yaml 1.2",
    "%",
    "% YAML 1.2",
    "%FOO bar",
    "%TA !a! x",
    "%TAGS !a! x",
    "%TAG",
    "%TAG !a x",
    "%TAG a! x",
    "%TAG a x",
    "%TAG !a!",
    "%TAG !a!x",
    "%TAG !a! x y",
    "%TAG !-! x",
    "%TAG !é! x",
    "%TAG !a!!b! x",
    "%TAG !a! {x",
    "%TAG !a! <x>",
    "%TAG !a! é",
    "%TAG !a! %",
    "%TAG !a! %4",
    "%TAG !a! %zz",
    "%TAG !a! %ff",
];

/// Faults in place of a node, in any context
pub const NODE: &[&str] = &[
    "@x", "`x", "%x", "@", "`", "'x' 'y'", "\"x\" y", "'x' y", "\"x\" 'y'", "[x] y", "[x] [y]", "{x} {y}", "[x] 'y'", "*a b", "*a 'b'",
    "*a [b]", "*a *b", "&a *b", "!t *b", "&a &b c", "!t !u c", "!!t !u c", "&a !t &b c", "!t &a !u c", "& x", "&", "* x", "*", "&- x", "&a-b c",
    "&é c", "*é", "*a-b", "!<x c", "!<a b> c", "!% c", "!%4 c", "!%zz c", "!!%ff c", "!!%c3%28 c", "!%80 c", "!undeclared!x c", "!undeclared!x [c]",
    "!undeclared!x {c: d}", "&a !undeclared!x [c]", "!undeclared!x &a {}", "!undeclared!x []", "[!undeclared!x [c]]", "{x: !undeclared!x {}}",
    "![a", "[x}", "{x]", "[x", "{x", "[x, {y: z]", "{x: [y}", "[,x]", "[x,,y]", "{,x}", "{x: y,, z: w}", "{x: ,, y}", "['x' 'y']",
    "[\"x\" y]", "{'x': 'y' 'z': 'w'}", "{x: [y] z: w}", "[[x] y]", "[x]]", "{x}}", "[{x}}]", "]", "}", "\"\\q\"", "\"\\x4\"", "\"\\u00\"",
    "\"\\ud800\"", "\"\\U00110000\"", "[@x]", "{x: `y}", "[%x]", "[x: y: z]", "{x: y: z}", "[- x]", "{x: - y}",
];

/// Faults of block scalar headers, where a block scalar may stand
pub const HEADER: &[&str] = &[
    "|x", "|--", ">++", "|+-", ">-+", "|10", ">11", "|1-1", "|-1-", "|1+2", "| a", "> a", "|a", ">'a'", "|2x", "|+ 1", "| -", ">1 1", "|-x",
    "|é", ">&a", "|[", "|:", ">>", "||", "|>",
];

fn fault_flow_value(src: &mut Src) -> String {
    NODE[src.below(NODE.len())].to_string()
}

/// Opening brackets it leaves open (positive) or closes too many (negative)
pub fn balance(fault: &str) -> isize {
    let n = |s: &[char]| fault.chars().filter(|c| s.contains(c)).count() as isize;
    n(&['[', '{']) - n(&[']', '}'])
}

pub fn c20(c: &mut Ctx) -> Result<(), String> {
    let class = c.src.weighted(&[24, 12, 30, 10, 24, 3]);
    // (text, events that are sure: those reported agree with them as far as both go)
    let (text, sure): (String, Vec<Ev>) = match class {
        0 | 1 => {
            c.label(if class == 0 { "layout" } else { "directive" });
            // after some documents
            let mut head = String::new();
            let mut sure = vec![Ev::StreamStart];
            let mut alone = true;
            if c.src.pct(60) {
                let d = stream(c, Cfg { docs: 3, budget: 8, ..Cfg::default() }, 1);
                head = d.text;
                if !head.ends_with(is_brk) {
                    head.push('\n');
                }
                head.push_str("...\n");
                sure = d.evs;
                sure.pop();
                if let Some(l) = sure.last_mut() {
                    *l = Ev::DocEnd { implicit: false };
                }
                alone = false;
            }
            let _ = alone;
            if class == 0 {
                let (bad, good) = LAYOUT[c.src.below(LAYOUT.len())];
                let good = run_str(good, Mode::Eager)?;
                if let Some(f) = good.fail {
                    return Err(format!("what is well formed fails: {:?}", f));
                }
                // the rest of the document, but for its end
                let marker = !bad.starts_with("---") && !bad.starts_with('%') && c.src.pct(25);
                let mut m: Vec<Ev> = good.evs[1..good.evs.len() - 1].to_vec();
                if marker {
                    head.push_str("---\n");
                    m[0] = Ev::doc(false);
                }
                sure.extend(m);
                let mut t = bad.to_string();
                if c.src.pct(40) {
                    t = rename(&mut c.src, &t, &mut sure);
                }
                if c.src.pct(25) {
                    t = t.replace('\n', c.src.pick(&["\r\n", "\r", "\u{85}", "\u{2028}"]));
                }
                if c.src.pct(25) {
                    // more of it
                    t.push_str(c.src.pick(&["# c\n", "\n\n", "...\n", "---\nx\n", "# [ ' \"\n"]));
                }
                head.push_str(&t);
                (head, sure)
            } else {
                let d = *c.src.pick(DIRECTIVE);
                let mut lines: Vec<String> = vec![];
                if c.src.pct(30) && !d.contains("YAML") {
                    lines.push("%YAML 1.2".into());
                }
                if c.src.pct(30) {
                    lines.push("%TAG !o! tag:o,1:".into());
                }
                if c.src.pct(20) {
                    lines.push("# c".into());
                }
                lines.push(d.into());
                if c.src.pct(20) {
                    lines.push("%TAG !p! tag:o,1:".into());
                }
                lines.push(["---", "--- a", "---\na: b", "--- # c\n- a"][c.src.below(4)].into());
                let brk = *c.src.pick(&["\n", "\n", "\r\n", "\r", "\u{85}"]);
                head.push_str(&lines.join(brk));
                if c.src.pct(60) {
                    head.push_str(brk);
                }
                (head, sure)
            }
        }
        2 => {
            // a node of a context
            c.label("node");
            let a = &AROUND[c.src.below(AROUND.len())];
            let header = !a.flow && !a.key && c.src.pct(20);
            let f = if header {
                let h = HEADER[c.src.below(HEADER.len())];
                format!("{}\n      x", h)
            } else {
                fault_flow_value(&mut c.src)
            };
            if a.flow && balance(&f) < 0 {
                // closes what it stands in
                return Ok(());
            }
            let t = format!("{}{}{}", a.pre, f, a.post);
            (t, vec![Ev::StreamStart])
        }
        3 => {
            c.label("end of input");
            let d = faulty_stream(c);
            return cut(c, d);
        }
        5 => {
            // blank lines ahead of a block scalar's text that are longer than its indentation
            c.label("leading blank line");
            let (pre, parent, evs) = [
                ("- ", 0, vec![Ev::seq(Kind::Root)]),
                ("k: ", 0, vec![Ev::map(Kind::Root), Ev::plain(Kind::Key, "k")]),
                ("- - ", 2, vec![Ev::seq(Kind::Root), Ev::seq(Kind::Entry)]),
                ("- k: ", 2, vec![Ev::seq(Kind::Root), Ev::map(Kind::Entry), Ev::plain(Kind::Key, "k")]),
                ("? ", 0, vec![Ev::map(Kind::Root)]),
                ("a:\n   - ", 3, vec![Ev::map(Kind::Root), Ev::plain(Kind::Key, "a"), Ev::seq(Kind::Value)]),
            ][c.src.below(6)]
            .clone();
            let brk = *c.src.pick(&["\n", "\n", "\n", "\r\n", "\r", "\u{85}"]);
            let indent = parent + c.src.range(1, 5);
            let mut t = format!("{}{}{}", pre, c.src.pick(&["|", ">", "|-", ">-", "|+", ">+"]), c.src.pick(&["", "", " # c", " "]));
            let n = c.src.range(1, 6);
            let long = c.src.below(n);
            for i in 0..n {
                t.push_str(brk);
                let k = if i == long { indent + c.src.range(1, 9) } else { c.src.below(indent + 3) };
                t.push_str(&" ".repeat(k));
            }
            t.push_str(brk);
            t.push_str(&" ".repeat(indent));
            t.push_str(c.src.pick(&["text", "a: b", "'q'", "- a", "# c\n", "[a]", "text\n"]).trim_end_matches("# c\n"));
            if t.ends_with(' ') {
                t.push_str("#c");
                t.push_str(brk);
                t.push_str(&" ".repeat(indent));
                t.push_str("x");
            }
            let mut sure = vec![Ev::StreamStart, Ev::doc(true)];
            sure.extend(evs);
            (t, sure)
        }
        _ => {
            let d = faulty_stream(c);
            match break_mark(c, d) {
                Some(x) => x,
                None => return Ok(()),
            }
        }
    };
    c.nontrivial();
    rejected(c, &text, &sure)
}

/// Must fail, with no other events than the sure ones as far as those go
fn rejected(c: &mut Ctx, text: &str, sure: &[Ev]) -> Result<(), String> {
    c.input(text.as_bytes());
    let check = |r: &Run, what: &str| -> Result<(), String> {
        match &r.fail {
            None => return Err(format!("{}: accepted: {}", what, compact(&r.evs))),
            Some(f) if f.cat == Cat::Io => return Err(format!("{}: reported as {:?}", what, f)),
            _ => {}
        }
        let n = sure.iter().zip(&r.evs).take_while(|(a, b)| a == b).count();
        if n < sure.len() && n < r.evs.len() {
            return Err(format!("{}: event {} before the fault: expected {:?}, got {:?}", what, n, sure[n], r.evs[n]));
        }
        Ok(())
    };
    check(&run_str(text, Mode::Eager)?, "as a string")?;
    if c.src.pct(60) {
        let via = any_via(&mut c.src, text.len());
        let mode = any_mode(&mut c.src);
        check(&run_via(text.as_bytes(), &via, mode)?, &format!("{:?} {:?}", via, mode))?;
    }
    if c.src.pct(10) {
        let t = format!("{}{}", padding(&mut c.src, text.as_bytes()), text);
        let ops = chunk_ops(&mut c.src, t.len());
        let mode = any_mode(&mut c.src);
        check(&run_read(t.as_bytes(), ops.clone(), mode)?, &format!("padded, {:?} {:?}", ops, mode))?;
    }
    Ok(())
}

/// Other names in the place of a, b, c, d
fn rename(src: &mut Src, text: &str, sure: &mut Vec<Ev>) -> String {
    // names used in a table's text are single letters standing alone
    let mut map: Vec<(char, String)> = vec![];
    for ch in ['a', 'b', 'c', 'd', 'e'] {
        let n = src.range(1, 6);
        let s: String = (0..n).map(|_| *src.pick(&['k', 'm', 'Q', '7', 'x'])).collect();
        map.push((ch, s));
    }
    let sub = |s: &str| -> String {
        s.chars()
            .map(|ch| map.iter().find(|m| m.0 == ch).map_or(ch.to_string(), |m| m.1.clone()))
            .collect()
    };
    let from = sure.iter().rposition(is_start).unwrap_or(0);
    for e in sure[from..].iter_mut() {
        match e {
            Ev::Scalar { value, anchor, .. } => {
                *value = sub(value);
                if let Some(a) = anchor {
                    *a = sub(a);
                }
            }
            Ev::Alias(a) => *a = sub(a),
            Ev::MapStart { anchor: Some(a), .. } | Ev::SeqStart { anchor: Some(a), .. } => *a = sub(a),
            _ => {}
        }
    }
    sub(text)
}

pub struct Marked {
    pub text: String,
    pub evs: Vec<Ev>,
    pub marks: Vec<Mark>,
}

pub fn faulty_stream(c: &mut Ctx) -> Marked {
    let mut cfg = any_cfg(&mut c.src);
    cfg.docs = cfg.docs.min(3);
    cfg.styles[1] += 2;
    cfg.styles[2] += 2;
    if c.src.pct(50) {
        cfg.flow = 50;
    }
    let mut g = Gen::new(&mut c.src, cfg);
    g.spike(2);
    g.stream();
    let Gen { out, evs, marks, .. } = g;
    Marked { text: out, evs, marks }
}

/// Cut off inside of a quoted scalar or a flow collection
fn cut(c: &mut Ctx, d: Marked) -> Result<(), String> {
    let mut spans: Vec<(usize, usize, Mark, bool)> = vec![];
    let mut open: Option<Mark> = None;
    for m in &d.marks {
        match m.kind {
            MarkKind::FlowOpen { outer: true } => open = Some(*m),
            MarkKind::FlowClose { outer: true } => {
                if let Some(o) = open.take() {
                    spans.push((o.pos, m.pos, o, false));
                }
            }
            MarkKind::Quoted { end, double, flow: false } => spans.push((m.pos + 1, end - 1, *m, !double)),
            _ => {}
        }
    }
    if spans.is_empty() {
        return Ok(());
    }
    let (lo, hi, m, single) = *c.src.pick(&spans);
    let mut at = c.src.range(lo, hi);
    while !d.text.is_char_boundary(at) {
        at -= 1;
    }
    if single {
        // not between the two quotes that stand for one
        let n = d.text[lo..at].bytes().rev().take_while(|b| *b == b'\'').count();
        if n % 2 == 1 {
            at += 1;
        }
        if at > hi {
            return Ok(());
        }
    }
    c.nontrivial();
    let sure = if m.in_key { sure_of_key(&d, &m) } else { d.evs[..m.ev].to_vec() };
    let text = d.text[..at].to_string();
    rejected(c, &text, &sure)
}

/// Events before the key that a mark is in
fn sure_of_key(d: &Marked, m: &Mark) -> Vec<Ev> {
    // a mapping's start may depend on the key; go back before any that the mark follows directly
    let mut n = m.ev;
    while n > 0 && !matches!(d.evs[n - 1], Ev::DocStart { .. } | Ev::DocEnd { .. } | Ev::StreamStart) {
        n -= 1;
    }
    d.evs[..n].to_vec()
}

/// Breaks the text at one of its marks
pub fn break_mark(c: &mut Ctx, d: Marked) -> Option<(String, Vec<Ev>)> {
    // what may be done, and where
    #[derive(Clone, Copy, PartialEq)]
    enum How {
        Swap,
        Double,
        Delete,
        TwoCommas,
        NoComma,
        Dedent,
        Tab,
        BreakKey,
        Node,
    }
    let t = &d.text;
    let mut can: Vec<(How, Mark)> = vec![];
    let hows = [How::Swap, How::Double, How::Delete, How::TwoCommas, How::NoComma, How::Dedent, How::Tab, How::BreakKey, How::Node];
    let start = c.src.below(hows.len());
    let mut how = hows[start];
    for k in 0..hows.len() {
        how = hows[(start + k) % hows.len()];
        for m in &d.marks {
            let ok = match (how, m.kind) {
                (How::Swap, MarkKind::FlowClose { .. }) => true,
                // with a ':' after it, it may become a key in block context, and all that follows its value
                (How::Double, MarkKind::FlowClose { .. }) => {
                    let mut ok = true;
                    for x in d.marks.iter().filter(|x| x.pos >= m.pos) {
                        if let MarkKind::FlowClose { outer } = x.kind {
                            ok &= !t[x.pos + 1..].trim_start().starts_with(':');
                            if outer {
                                break;
                            }
                        }
                    }
                    ok
                }
                (How::Delete, MarkKind::FlowClose { .. }) => !t[m.pos + 1..].contains(|ch| matches!(ch, ']' | '}')),
                (How::TwoCommas, MarkKind::FlowOpen { .. }) => true,
                (How::TwoCommas, MarkKind::Comma { .. }) => true,
                (How::NoComma, MarkKind::Comma { solid: true, last: false }) => {
                    !t[m.pos + 1..].trim_start_matches(|ch| matches!(ch, ' ' | '\t')).starts_with(':')
                }
                (How::Dedent, MarkKind::Line { first: false, m, parent, .. }) => m as i32 - 1 > parent,
                (How::Tab, MarkKind::Line { m, .. }) => m > 0,
                (How::BreakKey, MarkKind::Colon { .. }) => true,
                (How::Node, MarkKind::Quoted { .. }) => !m.in_key,
                _ => false,
            };
            if ok {
                can.push((how, *m));
            }
        }
        if !can.is_empty() {
            break;
        }
    }
    if can.is_empty() {
        return None;
    }
    let (_, m) = *c.src.pick(&can);
    let (a, b) = t.split_at(m.pos);
    let mut sure = if m.in_key { sure_of_key(&d, &m) } else { d.evs[..m.ev].to_vec() };
    let text = match how {
        How::Swap => {
            c.label("bracket of the other kind");
            let o = if b.starts_with(']') { '}' } else { ']' };
            format!("{}{}{}", a, o, &b[1..])
        }
        How::Double => {
            c.label("bracket twice");
            // the events of a whole flow collection wait for what follows it
            format!("{}{}{}", a, &b[..1], b)
        }
        How::Delete => {
            c.label("bracket missing");
            format!("{} {}", a, &b[1..])
        }
        How::TwoCommas => {
            c.label("comma too many");
            format!("{},{}", a, b)
        }
        How::NoComma => {
            c.label("comma missing");
            format!("{} {}", a, &b[1..])
        }
        How::Dedent => {
            c.label("indented less");
            format!("{}{}", a, &b[1..])
        }
        How::Tab => {
            c.label("tab");
            let w = match m.kind {
                MarkKind::Line { m, .. } => m,
                _ => 1,
            };
            let i = c.src.below(w);
            format!("{}{}\t{}", a, &b[..i], &b[i + 1..])
        }
        How::BreakKey => {
            c.label("break before ':'");
            let w = match m.kind {
                MarkKind::Colon { m } => m,
                _ => 0,
            };
            sure = sure_of_key(&d, &m);
            format!("{}\n{}{}", a, " ".repeat(w), b)
        }
        How::Node => {
            c.label("node exchanged");
            let end = match m.kind {
                MarkKind::Quoted { end, .. } => end,
                _ => m.pos,
            };
            let f = fault_flow_value(&mut c.src);
            // what is left open must not be closed by what follows
            if balance(&f) > 0 && t[end..].contains(|ch| matches!(ch, ']' | '}')) {
                return None;
            }
            // nor close what it stands in
            if balance(&f) < 0 && matches!(m.kind, MarkKind::Quoted { flow: true, .. }) {
                return None;
            }
            format!("{}{}{}", a, f, &t[end..])
        }
    };
    if matches!(how, How::Delete | How::NoComma | How::Double | How::Swap | How::TwoCommas) {
        // which nodes are keys may be another matter within the collection
        let outer = d.marks.iter().filter(|x| x.pos <= m.pos && matches!(x.kind, MarkKind::FlowOpen { outer: true })).last();
        if let Some(o) = outer {
            sure.truncate(if o.in_key { sure_of_key(&d, o).len() } else { o.ev });
            sure.truncate(sure.len().saturating_sub(1));
        }
    }
    Some((text, sure))
}

// ---- C26 ----

/// A key of a form, as long as asked for, and its events
fn long_key(src: &mut Src, want_len: usize, flow: bool) -> (String, Vec<Ev>) {
    let unit = *src.pick(&["k", "k", "é", "中", "😀", "k-", "x_"]);
    let body = |room: usize| -> String {
        let mut s = String::new();
        while s.len() + unit.len() <= room {
            s.push_str(unit);
        }
        while s.len() < room {
            s.push('z');
        }
        s
    };
    // properties take part
    let (props, anchor, tag): (String, Option<String>, Option<Tag>) = match src.below(8) {
        5 => ("&a ".into(), Some("a".into()), None),
        6 => ("!t ".into(), None, Some(("!".into(), "t".into()))),
        7 => {
            let n = src.range(1, want_len.min(1500) / 2 + 1);
            let a = "n".repeat(n);
            (format!("!!t &{}  ", a), Some(a), Some(("!!".into(), "t".into())))
        }
        _ => (String::new(), None, None),
    };
    let spaces = match src.below(6) {
        4 => 1,
        5 => src.range(1, 40),
        _ => 0,
    };
    let shape = src.below(7);
    let fixed = props.len() + spaces;
    let room = want_len.saturating_sub(fixed).max(6);
    let sc = |st: Style, v: String| Ev::Scalar { anchor: anchor.clone(), tag: tag.clone(), kind: Kind::Key, style: st, value: v };
    let pad = " ".repeat(spaces);
    match shape {
        1 => {
            let v = body(room - 2);
            (format!("{}'{}'{}", props, v, pad), vec![sc(Style::Single, v)])
        }
        2 => {
            let v = body(room - 2);
            (format!("{}\"{}\"{}", props, v, pad), vec![sc(Style::Double, v)])
        }
        3 if props.is_empty() => {
            let p = if pad.is_empty() { " ".to_string() } else { pad };
            let n = "a".repeat(want_len.saturating_sub(1 + p.len()).max(1));
            (format!("*{}{}", n, p), vec![Ev::Alias(n)])
        }
        4 => {
            let v = body(room - 2);
            let s = Ev::SeqStart { anchor: anchor.clone(), tag: tag.clone(), kind: Kind::Key };
            (format!("{}[{}]{}", props, v, pad), vec![s, Ev::plain(Kind::Entry, &v), Ev::SeqEnd])
        }
        5 => {
            // many short keys and values
            let mut t = String::from("{");
            let mut evs = vec![Ev::MapStart { anchor: anchor.clone(), tag: tag.clone(), kind: Kind::Key }];
            while t.len() + 10 < room {
                t.push_str("k: v, ");
                evs.push(Ev::plain(Kind::Key, "k"));
                evs.push(Ev::plain(Kind::Value, "v"));
            }
            while t.len() + 1 < room {
                t.push(' ');
            }
            t.push('}');
            evs.push(Ev::MapEnd);
            (format!("{}{}{}", props, t, pad), evs)
        }
        6 => {
            // words
            let mut v = body(room);
            let _ = flow;
            if room > 20 && unit == "k" {
                v.replace_range(room / 2..room / 2 + 1, " ");
            }
            (format!("{}{}{}", props, v, pad), vec![sc(Style::Plain, v)])
        }
        _ => {
            let v = body(room);
            (format!("{}{}{}", props, v, pad), vec![sc(Style::Plain, v)])
        }
    }
}

fn with_kind(evs: &[Ev], k: Kind) -> Vec<Ev> {
    let mut v = evs.to_vec();
    match v.first_mut() {
        Some(Ev::Scalar { kind, .. } | Ev::SeqStart { kind, .. } | Ev::MapStart { kind, .. }) => *kind = k,
        _ => {}
    }
    v
}

/// The same as the entry of a block sequence, or of many, any number of columns to the right
fn nested(src: &mut Src, text: &str, mid: Vec<Ev>) -> (String, Vec<Ev>) {
    let levels = if src.pct(50) { 1 } else { src.range(1, 70) };
    let mut head = String::new();
    for _ in 0..levels {
        head.push('-');
        let n = if levels > 1 { src.range(1, 3) } else { *src.pick(&[1usize, 6, 60, 126, 127, 250, 253, 254, 600, 1022, 1023, 1024, 1025, 1300, 3000]) };
        head.push_str(&" ".repeat(n));
    }
    let indent = " ".repeat(head.len());
    let mut lines = text.split('\n');
    head.push_str(lines.next().unwrap_or(""));
    for l in lines {
        head.push('\n');
        if !l.is_empty() {
            head.push_str(&indent);
            head.push_str(l);
        }
    }
    let mut evs = vec![];
    for i in 0..levels {
        evs.push(Ev::seq(if i == 0 { Kind::Root } else { Kind::Entry }));
    }
    evs.extend(with_kind(&mid, Kind::Entry));
    evs.extend((0..levels).map(|_| Ev::SeqEnd));
    (head, evs)
}

pub fn c26(c: &mut Ctx) -> Result<(), String> {
    let len = match c.src.below(6) {
        0 => c.src.range(1000, 1050),
        1 => c.src.range(1020, 1028),
        2 => *c.src.pick(&[1023usize, 1024, 1025, 1026]),
        3 => c.src.range(10, 1024),
        4 => c.src.range(1025, 9000),
        _ => *c.src.pick(&[255usize, 256, 257, 511, 512, 513, 1024, 1025, 1279, 1280, 1281, 2048, 4096, 8191, 8192, 8193, 65536, 66000]),
    };
    // contexts: before, after, events before and after; explicit: with '?'
    let doc = |mid: Vec<Ev>| -> Vec<Ev> {
        let mut v = vec![Ev::StreamStart, Ev::doc(true)];
        v.extend(mid);
        v.push(Ev::DocEnd { implicit: true });
        v.push(Ev::StreamEnd);
        v
    };
    let p = |k: Kind, s: &str| Ev::plain(k, s);
    let ctx = c.src.below(10);
    let flow = matches!(ctx, 5 | 6 | 7);
    let (key, kevs) = long_key(&mut c.src, len, flow);
    let n = key.len();
    let accepted = n <= 1024;
    let role = c.src.weighted(&[60, 20, 20]);
    if n > 900 {
        c.nontrivial();
    }
    let glue = |parts: Vec<Vec<Ev>>| -> Vec<Ev> { parts.into_iter().flatten().collect() };
    match role {
        0 => {
            c.label(if accepted { "key within the limit" } else { "key beyond the limit" });
            let (text, want) = match ctx {
                0 => (format!("{}: v\n", key), glue(vec![vec![Ev::map(Kind::Root)], kevs, vec![p(Kind::Value, "v"), Ev::MapEnd]])),
                1 => (
                    format!("a: b\n{}: v\n", key),
                    glue(vec![vec![Ev::map(Kind::Root), p(Kind::Key, "a"), p(Kind::Value, "b")], kevs, vec![p(Kind::Value, "v"), Ev::MapEnd]]),
                ),
                2 => (
                    format!("a:\n  {}: v\n  w: x\n", key),
                    glue(vec![
                        vec![Ev::map(Kind::Root), p(Kind::Key, "a"), Ev::map(Kind::Value)],
                        kevs,
                        vec![p(Kind::Value, "v"), p(Kind::Key, "w"), p(Kind::Value, "x"), Ev::MapEnd, Ev::MapEnd],
                    ]),
                ),
                3 => (
                    format!("- {}: v\n- z\n", key),
                    glue(vec![
                        vec![Ev::seq(Kind::Root), Ev::map(Kind::Entry)],
                        kevs,
                        vec![p(Kind::Value, "v"), Ev::MapEnd, p(Kind::Entry, "z"), Ev::SeqEnd],
                    ]),
                ),
                4 => (
                    format!("? a\n: {}: v\n", key),
                    glue(vec![
                        vec![Ev::map(Kind::Root), p(Kind::Key, "a"), Ev::map(Kind::Value)],
                        kevs,
                        vec![p(Kind::Value, "v"), Ev::MapEnd, Ev::MapEnd],
                    ]),
                ),
                5 => {
                    let far = if c.src.pct(30) { c.src.range(1, 400) } else { 0 };
                    let mut before = vec![Ev::map(Kind::Root)];
                    for _ in 0..far {
                        before.extend([p(Kind::Key, "k"), p(Kind::Value, "")]);
                    }
                    (format!("{{{}{}: v}}\n", "k, ".repeat(far), key), glue(vec![before, kevs, vec![p(Kind::Value, "v"), Ev::MapEnd]]))
                }
                6 => (
                    format!("[{}: v]\n", key),
                    glue(vec![
                        vec![Ev::seq(Kind::Root), Ev::map(Kind::Entry)],
                        kevs,
                        vec![p(Kind::Value, "v"), Ev::MapEnd, Ev::SeqEnd],
                    ]),
                ),
                7 => (
                    format!("- {{a: b,\n  {}: v, c: d}}\n", key),
                    glue(vec![
                        vec![Ev::seq(Kind::Root), Ev::map(Kind::Entry), p(Kind::Key, "a"), p(Kind::Value, "b")],
                        kevs,
                        vec![p(Kind::Value, "v"), p(Kind::Key, "c"), p(Kind::Value, "d"), Ev::MapEnd, Ev::SeqEnd],
                    ]),
                ),
                8 => (
                    format!("? {}: v\n", key),
                    glue(vec![
                        vec![Ev::map(Kind::Root), Ev::map(Kind::Key)],
                        kevs,
                        vec![p(Kind::Value, "v"), Ev::MapEnd, p(Kind::Value, ""), Ev::MapEnd],
                    ]),
                ),
                _ => (
                    format!("{}:\n- v\n", key),
                    glue(vec![vec![Ev::map(Kind::Root)], kevs, vec![Ev::seq(Kind::Value), p(Kind::Entry, "v"), Ev::SeqEnd, Ev::MapEnd]]),
                ),
            };
            let (text, want) = if c.src.pct(25) { nested(&mut c.src, &text, want) } else { (text, want) };
            if accepted {
                return check_text(c, &text, &doc(want));
            }
            rejected(c, &text, &[Ev::StreamStart, Ev::doc(true)])
        }
        1 => {
            // with '?': no limit, and lines as one likes
            c.label("explicit key");
            let (text, want) = match ctx {
                5 | 6 => (format!("{{? {} : v}}\n", key), glue(vec![vec![Ev::map(Kind::Root)], kevs, vec![p(Kind::Value, "v"), Ev::MapEnd]])),
                7 => (
                    format!("[? {}\n  : v]\n", key),
                    glue(vec![
                        vec![Ev::seq(Kind::Root), Ev::map(Kind::Entry)],
                        kevs,
                        vec![p(Kind::Value, "v"), Ev::MapEnd, Ev::SeqEnd],
                    ]),
                ),
                3 | 4 => (
                    format!("- ? {}\n  : v\n", key),
                    glue(vec![
                        vec![Ev::seq(Kind::Root), Ev::map(Kind::Entry)],
                        kevs,
                        vec![p(Kind::Value, "v"), Ev::MapEnd, Ev::SeqEnd],
                    ]),
                ),
                1 | 2 => {
                    // over two lines
                    let v = "m".repeat(len);
                    let (t, st) = match c.src.below(3) {
                        0 => (format!("? {}\n  n\n: v\n", v), Style::Plain),
                        1 => (format!("? '{}\n  n'\n: v\n", v), Style::Single),
                        _ => (format!("? \"{}\n  n\"\n: v\n", v), Style::Double),
                    };
                    (t, vec![Ev::map(Kind::Root), Ev::scalar(Kind::Key, st, &format!("{} n", v)), p(Kind::Value, "v"), Ev::MapEnd])
                }
                _ => (format!("? {}\n: v\n", key), glue(vec![vec![Ev::map(Kind::Root)], kevs, vec![p(Kind::Value, "v"), Ev::MapEnd]])),
            };
            let (text, want) = if c.src.pct(25) { nested(&mut c.src, &text, want) } else { (text, want) };
            check_text(c, &text, &doc(want))
        }
        _ => {
            // no key at all
            c.label("no key");
            let e = |k: Kind| with_kind(&kevs, k);
            let (text, want) = match ctx {
                0 => (format!("{}\n", key), e(Kind::Root)),
                1 => (format!("- {}\n- z\n", key), glue(vec![vec![Ev::seq(Kind::Root)], e(Kind::Entry), vec![p(Kind::Entry, "z"), Ev::SeqEnd]])),
                2 => (
                    format!("a: {}\nb: c\n", key),
                    glue(vec![
                        vec![Ev::map(Kind::Root), p(Kind::Key, "a")],
                        e(Kind::Value),
                        vec![p(Kind::Key, "b"), p(Kind::Value, "c"), Ev::MapEnd],
                    ]),
                ),
                3 => (
                    format!("[{}, b: c]\n", key),
                    glue(vec![
                        vec![Ev::seq(Kind::Root)],
                        e(Kind::Entry),
                        vec![Ev::map(Kind::Entry), p(Kind::Key, "b"), p(Kind::Value, "c"), Ev::MapEnd, Ev::SeqEnd],
                    ]),
                ),
                4 => (
                    format!("{{a: {}, b: c}}\n", key),
                    glue(vec![
                        vec![Ev::map(Kind::Root), p(Kind::Key, "a")],
                        e(Kind::Value),
                        vec![p(Kind::Key, "b"), p(Kind::Value, "c"), Ev::MapEnd],
                    ]),
                ),
                5 => (
                    format!("a:\n  {}\nb: c\n", key),
                    glue(vec![
                        vec![Ev::map(Kind::Root), p(Kind::Key, "a")],
                        e(Kind::Value),
                        vec![p(Kind::Key, "b"), p(Kind::Value, "c"), Ev::MapEnd],
                    ]),
                ),
                6 => {
                    // a collection that is longer than any key, with keys in it
                    let mut t = String::from("[");
                    let mut v = vec![Ev::seq(Kind::Root)];
                    while t.len() < len {
                        t.push_str(c.src.pick(&["{a: b}, ", "{a: b},\n", "a: b, "]));
                        if t.ends_with("a: b, ") || true {
                            v.extend([Ev::map(Kind::Entry), p(Kind::Key, "a"), p(Kind::Value, "b"), Ev::MapEnd]);
                        }
                    }
                    t.push_str("]\n");
                    v.push(Ev::SeqEnd);
                    (t, v)
                }
                7 => (
                    format!("{{{}, b: c}}\n", key),
                    glue(vec![
                        vec![Ev::map(Kind::Root)],
                        e(Kind::Key),
                        vec![p(Kind::Value, ""), p(Kind::Key, "b"), p(Kind::Value, "c"), Ev::MapEnd],
                    ]),
                ),
                8 => {
                    // a key after a long white space is still short
                    let g = " ".repeat(len);
                    match c.src.below(3) {
                        0 => (format!("{}a: b\n", g), vec![Ev::map(Kind::Root), p(Kind::Key, "a"), p(Kind::Value, "b"), Ev::MapEnd]),
                        1 => (
                            format!("-{}a: b\n", g),
                            vec![Ev::seq(Kind::Root), Ev::map(Kind::Entry), p(Kind::Key, "a"), p(Kind::Value, "b"), Ev::MapEnd, Ev::SeqEnd],
                        ),
                        _ => (
                            format!("{{{}a: b,{}c: d}}\n", g, g),
                            vec![
                                Ev::map(Kind::Root),
                                p(Kind::Key, "a"),
                                p(Kind::Value, "b"),
                                p(Kind::Key, "c"),
                                p(Kind::Value, "d"),
                                Ev::MapEnd,
                            ],
                        ),
                    }
                }
                _ => (
                    format!("a: {}\n  c\n? {} \n", "w".repeat(len), "x"),
                    vec![
                        Ev::map(Kind::Root),
                        p(Kind::Key, "a"),
                        p(Kind::Value, &format!("{} c", "w".repeat(len))),
                        p(Kind::Key, "x"),
                        p(Kind::Value, ""),
                        Ev::MapEnd,
                    ],
                ),
            };
            let (text, want) = if c.src.pct(25) { nested(&mut c.src, &text, want) } else { (text, want) };
            check_text(c, &text, &doc(want))
        }
    }
}

// ---- C27 ----

fn size(src: &mut Src, max: usize) -> usize {
    let n = match src.below(4) {
        0 => src.range(max / 100 + 1, max),
        1 => *src.pick(&[127usize, 128, 255, 256, 257, 511, 512, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 8193]),
        2 => *src.pick(&[16384usize, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 70000]),
        _ => src.range(max / 100 + 1, max / 10 + 1),
    };
    n.min(max)
}

/// What may be written any number of times in a row: what comes before, once, its text, what it
/// stands for, and what comes after
pub struct Unit {
    pub head: Vec<Ev>,
    pub text: String,
    pub evs: Vec<Ev>,
    pub tail: Vec<Ev>,
}

/// The entries of a generated root collection, or generated documents
pub fn unit(c: &mut Ctx, body: bool) -> Option<Unit> {
    // several, until one may be repeated
    for _ in 0..8 {
        let mut cfg = any_cfg(&mut c.src);
        cfg.budget = 2 + c.src.count(10, 70) as isize;
        if body {
            cfg.docs = 1;
            cfg.directives = 0;
            cfg.flow = cfg.flow.min(30);
        } else {
            cfg.docs = cfg.docs.min(3);
        }
        let d = stream(c, cfg, 0);
        if !d.text.ends_with(is_brk) {
            continue;
        }
        let mut text = d.text;
        let mut evs: Vec<Ev> = d.evs[1..d.evs.len() - 1].to_vec();
        let (mut head, mut tail) = (vec![Ev::StreamStart], vec![Ev::StreamEnd]);
        if body {
            // a bare document of a block collection whose first line is content
            let first = text.split(is_brk).next().unwrap_or("").trim();
            let block = match evs.get(1) {
                Some(Ev::SeqStart { anchor: None, tag: None, .. }) => first.starts_with('-'),
                Some(Ev::MapStart { anchor: None, tag: None, .. }) => !first.starts_with(':') && !first.starts_with('{'),
                _ => false,
            };
            let bare = evs[0] == Ev::doc(true) && evs[evs.len() - 1] == Ev::DocEnd { implicit: true };
            if !block || !bare || first.is_empty() || first.starts_with('#') {
                continue;
            }
            head.extend([evs.remove(0), evs.remove(0)]);
            let end = evs.split_off(evs.len() - 2);
            tail = end.into_iter().chain(tail).collect();
        } else {
            if matches!(evs[0], Ev::DocStart { implicit: true, .. }) && matches!(evs[1], Ev::DocEnd { .. }) {
                continue;
            }
            text.push_str("...\n");
            if let Some(l) = evs.last_mut() {
                *l = Ev::DocEnd { implicit: false };
            }
        }
        return Some(Unit { head, text, evs, tail });
    }
    None
}

/// One of those over and over
fn repeated(c: &mut Ctx, body: bool) -> Option<(String, Vec<Ev>)> {
    let lines = match c.src.below(5) {
        0 | 1 => c.src.range(65_600, 70_000),
        2 => c.src.range(300, 5_000),
        _ => c.src.range(5_000, 20_000),
    };
    let u = unit(c, body)?;
    let per = u.text.matches(is_brk).count().max(1);
    let n = (lines / per + 1).min(1_500_000 / u.text.len() + 1).min(400_000 / u.evs.len() + 1);
    let mut all = u.head;
    for _ in 0..n {
        all.extend_from_slice(&u.evs);
    }
    all.extend(u.tail);
    Some((u.text.repeat(n), all))
}

pub fn c27(c: &mut Ctx) -> Result<(), String> {
    let big = if c.thorough { 4 } else { 1 };
    let mut t = String::new();
    let mut v: Vec<Ev> = vec![];
    let p = |k: Kind, s: &str| Ev::plain(k, s);
    let mut implicit = true;
    let mut whole: Option<(String, Vec<Ev>)> = None;
    match c.src.below(19) {
        0 => {
            c.label("flow nesting");
            let n = size(&mut c.src, 66000 * big);
            let unit = c.src.below(4);
            let brk = *c.src.pick(&["", " ", "\n", "\n\n "]);
            let mut kind = Kind::Root;
            let mut close = String::new();
            for _ in 0..n {
                match unit {
                    0 => {
                        t.push('[');
                        close.push(']');
                        v.push(Ev::seq(kind));
                        kind = Kind::Entry;
                    }
                    1 => {
                        t.push_str("{a: ");
                        close.push('}');
                        v.push(Ev::map(kind));
                        v.push(p(Kind::Key, "a"));
                        kind = Kind::Value;
                    }
                    2 => {
                        t.push_str("[b, ");
                        close.push(']');
                        v.push(Ev::seq(kind));
                        v.push(p(Kind::Entry, "b"));
                        kind = Kind::Entry;
                    }
                    _ => {
                        // a collection in the key
                        t.push_str("{? ");
                        close.push('}');
                        v.push(Ev::map(kind));
                        kind = Kind::Key;
                    }
                }
                t.push_str(brk);
            }
            t.push('x');
            v.push(p(kind, "x"));
            for ch in close.chars() {
                if unit == 3 {
                    v.push(p(Kind::Value, ""));
                }
                v.push(if ch == ']' { Ev::SeqEnd } else { Ev::MapEnd });
            }
            t.push_str(&close);
        }
        1 => {
            c.label("compact nesting");
            let n = size(&mut c.src, 9000 * big);
            let unit = c.src.below(3);
            let mut kind = Kind::Root;
            for i in 0..n {
                if unit == 0 || unit == 2 && i % 2 == 0 {
                    t.push_str("- ");
                    v.push(Ev::seq(kind));
                    kind = Kind::Entry;
                } else {
                    t.push_str("? ");
                    v.push(Ev::map(kind));
                    kind = Kind::Key;
                }
            }
            t.push_str("x\n");
            v.push(p(kind, "x"));
            for i in (0..n).rev() {
                if unit == 0 || unit == 2 && i % 2 == 0 {
                    v.push(Ev::SeqEnd);
                } else {
                    v.push(p(Kind::Value, ""));
                    v.push(Ev::MapEnd);
                }
            }
            if c.src.pct(50) && unit == 0 {
                // and back at the outermost
                t.push_str("- y\n");
                v.pop();
                v.push(p(Kind::Entry, "y"));
                v.push(Ev::SeqEnd);
            }
        }
        2 => {
            c.label("indented nesting");
            let n = size(&mut c.src, 500 * big);
            let seqs = c.src.pct(50);
            for i in 0..n {
                let ind = " ".repeat(i);
                if seqs {
                    t.push_str(&format!("{}-\n", ind));
                    v.push(Ev::seq(if i == 0 { Kind::Root } else { Kind::Entry }));
                } else {
                    t.push_str(&format!("{}k:\n", ind));
                    v.push(Ev::map(if i == 0 { Kind::Root } else { Kind::Value }));
                    v.push(p(Kind::Key, "k"));
                }
            }
            v.push(p(if seqs { Kind::Entry } else { Kind::Value }, ""));
            for i in (0..n).rev() {
                let ind = " ".repeat(i);
                if seqs {
                    t.push_str(&format!("{}- z\n", ind));
                    v.push(p(Kind::Entry, "z"));
                    v.push(Ev::SeqEnd);
                } else {
                    t.push_str(&format!("{}l: z\n", ind));
                    v.push(p(Kind::Key, "l"));
                    v.push(p(Kind::Value, "z"));
                    v.push(Ev::MapEnd);
                }
            }
        }
        3 => {
            c.label("many entries");
            let n = size(&mut c.src, 66000 * big);
            match c.src.below(5) {
                0 => {
                    v.push(Ev::seq(Kind::Root));
                    for i in 0..n {
                        t.push_str(&format!("- {}\n", i));
                        v.push(p(Kind::Entry, &i.to_string()));
                    }
                    v.push(Ev::SeqEnd);
                }
                1 => {
                    v.push(Ev::map(Kind::Root));
                    for i in 0..n {
                        t.push_str(&format!("{}: v\n", i));
                        v.push(p(Kind::Key, &i.to_string()));
                        v.push(p(Kind::Value, "v"));
                    }
                    v.push(Ev::MapEnd);
                }
                2 => {
                    v.push(Ev::seq(Kind::Root));
                    let b = *c.src.pick(&[",", ", ", ",\n"]);
                    t.push('[');
                    for i in 0..n {
                        t.push_str(&format!("{}{}", i, b));
                        v.push(p(Kind::Entry, &i.to_string()));
                    }
                    t.push(']');
                    v.push(Ev::SeqEnd);
                }
                3 => {
                    v.push(Ev::map(Kind::Root));
                    let b = *c.src.pick(&[",", ", ", ",\n"]);
                    t.push('{');
                    for i in 0..n {
                        t.push_str(&format!("{}: {}{}", i, i, b));
                        v.push(p(Kind::Key, &i.to_string()));
                        v.push(p(Kind::Value, &i.to_string()));
                    }
                    t.push('}');
                    v.push(Ev::MapEnd);
                }
                _ => {
                    // empty ones
                    v.push(Ev::seq(Kind::Root));
                    for _ in 0..n {
                        t.push_str("-\n");
                        v.push(p(Kind::Entry, ""));
                    }
                    v.push(Ev::SeqEnd);
                }
            }
        }
        4 | 5 => {
            c.label("large scalar");
            let n = size(&mut c.src, 200_000 * big);
            let unit = *c.src.pick(&["w", "word ", "é", "中 ", "😀", "a: ", "#x", "line\n", "l\n\n", "\n", "x    "]);
            let style = c.src.below(5);
            let mut raw: String = unit.repeat(n / unit.len() + 1);
            // the text of a scalar: what it stands for
            let (s, st, val) = match style {
                3 | 4 => {
                    let mut lines: Vec<Option<String>> =
                        raw.split('\n').map(|l| l.trim()).map(|l| if l.is_empty() { None } else { Some(l.to_string()) }).collect();
                    if c.src.pct(50) {
                        // something before and after it
                        lines.insert(0, Some("s".into()));
                        lines.push(Some("e".into()));
                    }
                    let fold = style == 4;
                    let val = block_value(&lines, fold, 2);
                    let mut s = String::from(if fold { ">+\n" } else { "|+\n" });
                    for l in &lines {
                        match l {
                            Some(l) => s.push_str(&format!("    {}\n", l)),
                            None => s.push('\n'),
                        }
                    }
                    (s, if fold { Style::Folded } else { Style::Literal }, val)
                }
                k => {
                    raw = raw.replace("a: ", "a:b ").replace('#', "+");
                    let words: Vec<&str> = raw.split('\n').map(|l| l.trim_matches(' ')).collect();
                    let mut s = String::from("s");
                    let mut val = String::from("s");
                    let mut empties = 0;
                    for (i, w) in words.iter().enumerate() {
                        if i == 0 {
                            s.push_str(w);
                            val.push_str(w);
                            continue;
                        }
                        s.push('\n');
                        if w.is_empty() {
                            empties += 1;
                            continue;
                        }
                        s.push_str("    ");
                        s.push_str(w);
                        if empties == 0 {
                            val.push(' ');
                        } else {
                            val.push_str(&"\n".repeat(empties));
                        }
                        val.push_str(w);
                        empties = 0;
                    }
                    // something at the end, so that no break is left over
                    s.push_str("\n    e");
                    if empties == 0 {
                        val.push(' ');
                    } else {
                        val.push_str(&"\n".repeat(empties));
                    }
                    val.push('e');
                    match k {
                        0 => (format!("{}\n", s), Style::Plain, val),
                        1 => (format!("'{}'\n", s), Style::Single, val),
                        _ => (format!("\"{}\"\n", s), Style::Double, val),
                    }
                }
            };
            match c.src.below(3) {
                0 => {
                    t = format!("- a\n- {}- z\n", s);
                    v = vec![Ev::seq(Kind::Root), p(Kind::Entry, "a"), Ev::scalar(Kind::Entry, st, &val), p(Kind::Entry, "z"), Ev::SeqEnd];
                }
                1 => {
                    t = format!("k: {}l: z\n", s);
                    v = vec![
                        Ev::map(Kind::Root),
                        p(Kind::Key, "k"),
                        Ev::scalar(Kind::Value, st, &val),
                        p(Kind::Key, "l"),
                        p(Kind::Value, "z"),
                        Ev::MapEnd,
                    ];
                }
                _ => {
                    t = format!("--- {}", s);
                    implicit = false;
                    v = vec![Ev::scalar(Kind::Root, st, &val)];
                }
            }
        }
        6 => {
            c.label("escapes");
            let n = size(&mut c.src, 66000 * big);
            let (e, ch) = *c.src.pick(&[("\\n", "\n"), ("\\x41", "A"), ("\\u00e9", "é"), ("\\U0001F600", "😀"), ("\\\"", "\""), ("\\\n  ", "")]);
            t = format!("- \"{}\"\n- '{}'\n", e.repeat(n), "''".repeat(n));
            v = vec![
                Ev::seq(Kind::Root),
                Ev::scalar(Kind::Entry, Style::Double, &ch.repeat(n)),
                Ev::scalar(Kind::Entry, Style::Single, &"'".repeat(n)),
                Ev::SeqEnd,
            ];
        }
        7 => {
            c.label("comments and blanks");
            let n = size(&mut c.src, 200_000 * big);
            let u = *c.src.pick(&["c", "é", "\n", " \n", "# c\n", "\r\n", "\u{2028}", "#\t'\n", "\u{85}"]);
            let mut gap = u.repeat(n / u.len() + 1);
            if !gap.contains(is_brk) {
                gap = format!(" #{}", gap);
            }
            if gap.starts_with('#') {
                gap.insert(0, '\n');
            }
            t = match c.src.below(4) {
                0 => format!("- a{}\n- b{}\n- c{}", gap, gap, gap),
                1 => format!("- a{}\n- {}\n  b{}\n- c", gap, gap, gap),
                2 => format!("[{}\n a{}\n,{}\n b{}\n, c{}\n]{}\n", gap, gap, gap, gap, gap, gap),
                _ => format!("{}\n- a{}\n-\n{}\n b\n- c\n{}", if gap.starts_with(' ') { &gap[1..] } else { &gap }, gap, gap.trim_start_matches(' '), gap),
            };
            v = vec![Ev::seq(Kind::Root), p(Kind::Entry, "a"), p(Kind::Entry, "b"), p(Kind::Entry, "c"), Ev::SeqEnd];
        }
        8 => {
            c.label("white space");
            let n = size(&mut c.src, 100_000 * big);
            let g = c.src.pick(&[" ", "\t", " \t"]).repeat(n);
            let s = " ".repeat(n);
            t = format!("{}- {}a{}\n{}- !t{}&x{}b{}# c\n{}-{}[{}c,{}d{}]\n", s, s, g, s, g, g, g, s, s, g, g, g);
            v = vec![
                Ev::seq(Kind::Root),
                p(Kind::Entry, "a"),
                Ev::Scalar {
                    anchor: Some("x".into()),
                    tag: Some(("!".into(), "t".into())),
                    kind: Kind::Entry,
                    style: Style::Plain,
                    value: "b".into(),
                },
                Ev::seq(Kind::Entry),
                p(Kind::Entry, "c"),
                p(Kind::Entry, "d"),
                Ev::SeqEnd,
                Ev::SeqEnd,
            ];
        }
        9 => {
            c.label("long names");
            let n = size(&mut c.src, 100_000 * big);
            let a = "aB0".repeat(n / 3 + 1);
            let m = size(&mut c.src, 100_000 * big);
            let g = c.src.pick(&["t", "a:b", "x/", "q."]).repeat(m / 3 + 1);
            let ge: String = if c.src.pct(30) { "%41".repeat(m / 3 + 1) } else { g.clone() };
            let gv = ge.replace("%41", "A");
            t = format!("- &{} !{} a\n- *{}\n- !<{}> b\n- [*{}, !!{} c]\n", a, ge, a, ge, a, ge);
            let tag = |h: &str| Some((h.to_string(), gv.clone()));
            v = vec![
                Ev::seq(Kind::Root),
                Ev::Scalar { anchor: Some(a.clone()), tag: tag("!"), kind: Kind::Entry, style: Style::Plain, value: "a".into() },
                Ev::Alias(a.clone()),
                Ev::Scalar { anchor: None, tag: tag(""), kind: Kind::Entry, style: Style::Plain, value: "b".into() },
                Ev::seq(Kind::Entry),
                Ev::Alias(a),
                Ev::Scalar { anchor: None, tag: tag("!!"), kind: Kind::Entry, style: Style::Plain, value: "c".into() },
                Ev::SeqEnd,
                Ev::SeqEnd,
            ];
        }
        10 => {
            c.label("many directives");
            let n = size(&mut c.src, 3000 * big);
            let mut tags = default_tags();
            for i in 0..n {
                t.push_str(&format!("%TAG !h{}! tag:p{},1:\n", i, i));
                tags.insert(format!("!h{}!", i), format!("tag:p{},1:", i));
            }
            let long = "x".repeat(size(&mut c.src, 50_000 * big));
            t.push_str(&format!("%TAG !{}! {}\n", long, long));
            tags.insert(format!("!{}!", long), long.clone());
            let k = n - 1;
            t.push_str(&format!("---\n- !h{}!s a\n- !{}!s b\n", k, long));
            let s = |h: String, v: &str| Ev::Scalar {
                anchor: None,
                tag: Some((h, "s".into())),
                kind: Kind::Entry,
                style: Style::Plain,
                value: v.into(),
            };
            whole = Some((
                t.clone(),
                vec![
                    Ev::StreamStart,
                    Ev::DocStart { version: (1, 2), tags, implicit: false },
                    Ev::seq(Kind::Root),
                    s(format!("!h{}!", k), "a"),
                    s(format!("!{}!", long), "b"),
                    Ev::SeqEnd,
                    Ev::DocEnd { implicit: true },
                    Ev::StreamEnd,
                ],
            ));
        }
        11 => {
            c.label("many documents");
            let n = size(&mut c.src, 20_000 * big);
            let k = c.src.below(4);
            let mut evs = vec![Ev::StreamStart];
            for i in 0..n {
                let s = i.to_string();
                match k {
                    0 => {
                        t.push_str(&format!("--- {}\n", s));
                        evs.extend([Ev::doc(false), p(Kind::Root, &s), Ev::DocEnd { implicit: true }]);
                    }
                    1 => {
                        t.push_str(&format!("{}: [a]\n...\n", s));
                        evs.extend([
                            Ev::doc(true),
                            Ev::map(Kind::Root),
                            p(Kind::Key, &s),
                            Ev::seq(Kind::Value),
                            p(Kind::Entry, "a"),
                            Ev::SeqEnd,
                            Ev::MapEnd,
                            Ev::DocEnd { implicit: false },
                        ]);
                    }
                    2 => {
                        t.push_str("---\n");
                        evs.extend([Ev::doc(false), Ev::DocEnd { implicit: true }]);
                    }
                    _ => {
                        t.push_str("%YAML 1.1\n---\n- a\n- - b\n...\n");
                        evs.extend([
                            Ev::DocStart { version: (1, 1), tags: default_tags(), implicit: false },
                            Ev::seq(Kind::Root),
                            p(Kind::Entry, "a"),
                            Ev::seq(Kind::Entry),
                            p(Kind::Entry, "b"),
                            Ev::SeqEnd,
                            Ev::SeqEnd,
                            Ev::DocEnd { implicit: false },
                        ]);
                    }
                }
            }
            evs.push(Ev::StreamEnd);
            whole = Some((t.clone(), evs));
        }
        12 | 13 => {
            let body = c.src.pct(60);
            c.label(if body { "entries repeated" } else { "documents repeated" });
            match repeated(c, body) {
                Some(w) => whole = Some(w),
                None => return Ok(()),
            }
        }
        14 => {
            c.label("large generated");
            let cfg = Cfg { depth: 14, width: 8, budget: 3000, docs: 4, ..any_cfg(&mut c.src) };
            let d = stream(c, cfg, 50);
            whole = Some((d.text, d.evs));
        }
        _ => {
            c.label("large detail");
            let mut cfg = any_cfg(&mut c.src);
            cfg.huge = true;
            cfg.budget = c.src.range(4, 40) as isize;
            let d = stream(c, cfg, 100);
            whole = Some((d.text, d.evs));
        }
    }
    let (text, want) = match whole {
        Some(w) => w,
        None => {
            let mut evs = vec![Ev::StreamStart, Ev::doc(implicit)];
            evs.extend(v);
            evs.push(Ev::DocEnd { implicit: true });
            evs.push(Ev::StreamEnd);
            (t, evs)
        }
    };
    c.nontrivial();
    c.input(text.as_bytes());
    let r = run_str(&text, Mode::Eager)?;
    if let Some(d) = diff(&want, &r) {
        return Err(d);
    }
    let via = match c.src.below(3) {
        0 => Via::Str,
        1 => Via::Bytes,
        _ => Via::Read(big_ops(&mut c.src)),
    };
    let mode = any_mode(&mut c.src);
    let r = run_via(text.as_bytes(), &via, mode)?;
    match diff(&want, &r) {
        Some(d) => Err(format!("{:?} {:?}: {}", via, mode, d)),
        None => Ok(()),
    }
}

/// Chunks that are not too small for large texts
pub fn big_ops(src: &mut Src) -> Vec<Op> {
    match src.below(4) {
        0 => vec![Op::Give(usize::MAX)],
        1 => {
            let n = src.range(500, 9000);
            vec![Op::Give(n)]
        }
        2 => {
            let n = *src.pick(&[4096usize, 8191, 8192, 8193, 16384, 65536]);
            vec![Op::Give(n)]
        }
        _ => {
            let n = src.range(1, 9000);
            let m = src.range(200, 9000);
            vec![Op::Give(n), Op::Interrupt, Op::Give(m)]
        }
    }
}

// ---- C28 ----

/// A source that tells when it goes
struct Told {
    source: Source,
    gone: std::rc::Rc<std::cell::Cell<usize>>,
}

impl std::io::Read for Told {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.source.read(buf)
    }
}

impl Drop for Told {
    fn drop(&mut self) {
        self.gone.set(self.gone.get() + 1);
    }
}

/// What is done with the events, one step for each, over and over
fn spend<R: yary::reader::Read>(r: &R, lazy: bool, script: &[u8], limit: usize) -> Result<(), String> {
    let mut kept: Vec<Event<'_>> = vec![];
    let mut events = from_reader_with(r, if lazy { O_LAZY } else { O_NIL });
    let mut n = 0;
    loop {
        let step = script[n % script.len()];
        n += 1;
        if n > limit {
            return Err("too many events".into());
        }
        let e = match step {
            9 => {
                let mut it = events.into_iter();
                let e = it.next();
                events = it.into_inner();
                e
            }
            _ => events.iter().next(),
        };
        match e {
            None => break,
            Some(Err(e)) => {
                if step % 2 == 0 {
                    let _: std::io::Error = e.into();
                }
                let _ = events.iter().next();
                break;
            }
            Some(Ok(mut e)) => match step {
                1 => kept.push(e),
                2 => {
                    kept.push(e.clone());
                    kept.push(e);
                }
                3 => {
                    if let EventData::Scalar(n) = e.data_mut() {
                        let _ = n.content.evaluate_by_ref();
                    }
                }
                4 => {
                    if let EventData::Scalar(n) = e.data() {
                        let _ = n.content.clone().evaluate();
                    }
                }
                5 => {
                    if let EventData::Scalar(n) = e.data_mut() {
                        let _ = n.content.evaluate_by_ref();
                    }
                    kept.push(e);
                }
                6 => {
                    if !kept.is_empty() {
                        kept.swap_remove(n % kept.len());
                    }
                }
                7 => {
                    if let EventData::Scalar(n) = e.data_mut() {
                        let c = std::mem::take(&mut n.content);
                        let _ = c.evaluate();
                    }
                }
                8 if n > 40 => break,
                _ => {}
            },
        }
    }
    if script[0] % 2 == 0 {
        drop(events);
        drop(kept);
    }
    Ok(())
}

pub fn c28(c: &mut Ctx) -> Result<(), String> {
    match c.src.weighted(&[900, 60, 12]) {
        0 => {
            let text = any_text(c).into_bytes();
            c28_text(c, text, false)
        }
        1 => {
            c.label("several buffers");
            let d = {
                let mut cfg = any_cfg(&mut c.src);
                cfg.huge = c.src.pct(30);
                cfg.docs = 3;
                stream(c, cfg, 60).text
            };
            let mut t = format!("{}{}", padding(&mut c.src, d.as_bytes()), d).into_bytes();
            if c.src.pct(20) {
                // not UTF-8 somewhere
                let k = c.src.below(t.len());
                t[k] = 0xFF;
            }
            c28_text(c, t, true)
        }
        _ => c28_growth(c),
    }
}

fn c28_text(c: &mut Ctx, text: Vec<u8>, big: bool) -> Result<(), String> {
    use crate::alloc::measure;
    c.input(&text);
    let lazy = c.src.pct(50);
    let len = c.src.range(1, 8);
    let script: Vec<u8> = (0..len).map(|_| if c.src.pct(30) { 0 } else { c.src.below(10) as u8 }).collect();
    let limit = event_limit(text.len()) + 50;
    let ops = if big { big_ops(&mut c.src) } else { chunk_ops(&mut c.src, text.len()) };
    let mut ops = ops;
    if c.src.pct(15) {
        // the source fails
        ops.insert(c.src.below(ops.len() + 1), Op::Fail(std::io::ErrorKind::Other, Some("some failure".into()), None));
    }
    let how = c.src.below(3);
    let gone = std::rc::Rc::new(std::cell::Cell::new(0));
    if text.len() > 20 {
        c.nontrivial();
    }
    let runs = std::cell::Cell::new(0);
    let go = || -> Result<(), String> {
        match how {
            0 => match yary::reader::try_from_bytes(&text) {
                Ok(r) => spend(&r, lazy, &script, limit),
                Err(_) => Ok(()),
            },
            1 => match std::str::from_utf8(&text) {
                Ok(s) => spend(&yary::reader::from_utf8(s), lazy, &script, limit),
                Err(_) => Ok(()),
            },
            _ => {
                let told = Told { source: Source::new(&text, ops.clone()), gone: gone.clone() };
                let r = yary::reader::from_read(told);
                runs.set(runs.get() + 1);
                spend(&r, lazy, &script, limit)?;
                if gone.get() != runs.get() - 1 {
                    return Err("the source is gone before its reader".into());
                }
                drop(r);
                if gone.get() != runs.get() {
                    return Err(format!("the source was dropped {} times for {} readers", gone.get(), runs.get()));
                }
                Ok(())
            }
        }
    };
    let (r, u) = measure(&go);
    r?;
    if u.left != 0 {
        // what is set up once, or kept for reuse, does not grow
        let (r, _) = measure(&go);
        r?;
        let (r, v) = measure(&go);
        r?;
        if v.left != 0 {
            return Err(format!("{:?} how {} script {:?}: {:?}, and again {:?}", ops, how, script, u, v));
        }
    }
    Ok(())
}

/// Six times the text takes no more than a multiple of the memory, and read from a string no more at a
/// time, unless it is one large detail that grows
fn c28_growth(c: &mut Ctx) -> Result<(), String> {
    use crate::alloc::measure;
    const TIMES: usize = 6;
    let size = c.src.range(20_000, 120_000);
    let flat = c.src.pct(70);
    let (small, large) = if flat {
        c.label("growth of a stream");
        let body = c.src.pct(50);
        let u = match unit(c, body) {
            Some(u) => u,
            None => return Ok(()),
        };
        let n = size / u.text.len() + 1;
        (u.text.repeat(n), u.text.repeat(n * TIMES))
    } else {
        c.label("growth of a detail");
        // (before, repeated, between, repeated as often, after)
        let forms = [
            ("", "word ", "", "", "\n"),
            ("", "word\n", "", "", ""),
            ("- \"", "a\\n", "", "", "\"\n"),
            ("- \"", "a\n", "", "", "\"\n"),
            ("- '", "a''", "", "", "'\n"),
            ("- '", "a\n\n", "", "", "'\n"),
            ("- |\n", "  text\n", "", "", ""),
            ("- >\n", "  text\n", "", "", ""),
            ("- |+\n", "\n", "", "", ""),
            ("- >\n", "   text\n\n", "", "", ""),
            ("# ", "comment ", "", "", "\n- a\n"),
            ("- a\n", "# comment\n", "", "", "- b\n"),
            ("- a\n", "\n", "", "", "- b\n"),
            ("- a ", " ", "", "", "\n- b\n"),
            ("- !<", "a%41", "", "", "> b\n"),
            ("- &a", "b", "", "", " b\n"),
            ("- *a", "b", "", "", "\n"),
            ("%TAG !a! ", "b%41", "", "", "\n--- !a!b c\n"),
            ("", "[", "a", "]", "\n"),
            ("", "{a: ", "b", "}", "\n"),
            ("", "[\n", "a", "]\n", "\n"),
            ("", "- ", "a\n", "", ""),
            ("", "? ", "a\n", "", ""),
            ("[", "a, ", "", "", "]\n"),
            ("{", "a: b,\n", "", "", "}\n"),
        ];
        let f = c.src.pick(&forms);
        // blocks are left one by one for every entry
        let size = if f.1.len() == 2 && f.2.ends_with('\n') { size / 10 } else { size };
        let n = size / (f.1.len() + f.3.len()) + 1;
        let t = |n: usize| format!("{}{}{}{}{}", f.0, f.1.repeat(n), f.2, f.3.repeat(n), f.4);
        (t(n), t(n * TIMES))
    };
    c.nontrivial();
    c.input(small.as_bytes());
    let lazy = c.src.pct(50);
    let script = *c.src.pick(&[&[0u8][..], &[3], &[4], &[7], &[9, 0]]);
    let read = c.src.pct(40);
    let ops = big_ops(&mut c.src);
    let go = |t: &str| {
        let limit = event_limit(t.len());
        if read {
            measure(|| spend(&yary::reader::from_read(Source::new(t.as_bytes(), ops.clone())), lazy, script, limit))
        } else {
            measure(|| spend(&yary::reader::from_utf8(t), lazy, script, limit))
        }
    };
    let (r, a) = go(&small);
    r?;
    let (r, b) = go(&large);
    r?;
    // (times the bytes held at most, times the bytes ever allocated)
    let (held, ever) = match (flat, read) {
        // nothing is to be remembered of what has gone by
        (true, false) => (2, 2 * TIMES),
        // the reader keeps what it has read
        (true, true) => (2 * TIMES + 3, 2 * TIMES + 3),
        (false, false) => (3 * TIMES, 3 * TIMES),
        // by ever larger buffers
        (false, true) => (4 * TIMES + 4, 4 * TIMES + 4),
    };
    let slack = 32 * 1024;
    if b.peak > held as isize * a.peak + slack || b.total > ever * a.total + slack as usize {
        return Err(format!(
            "{} bytes, written {} times (a stream: {}, read from a source: {}, lazy: {}): {:?}, but once {:?}",
            small.len(),
            TIMES,
            flat,
            read,
            lazy,
            b,
            a
        ));
    }
    for (u, t) in [(a, &small), (b, &large)] {
        if u.left != 0 && go(t).1.left != 0 && go(t).1.left != 0 {
            return Err(format!("{} bytes of text: {:?}", t.len(), u));
        }
    }
    Ok(())
}

//! Checks whose inputs are written together with the events they stand for: C05 to C18.

use crate::common::*;
use crate::engine::Ctx;
use crate::ev::*;
use crate::gen::*;

fn class(c: &mut Ctx, f: &Feats) {
    let mut l = |on: bool, s: &'static str| {
        if on {
            c.labels.push(s)
        }
    };
    l(f.zero_indent > 0, "sequence at its key's indentation");
    l(f.compact > 0, "compact collection");
    l(f.explicit > 0, "explicit key");
    l(f.flow_keys > 0, "flow collection as key");
    l(f.pairs > 0, "single pair mapping");
    l(f.block_scalars > 0, "block scalar");
    l(f.anchors > 0, "anchor");
    l(f.aliases > 0, "alias");
    l(f.tags > 0, "tag");
    l(f.empties > 0, "empty node");
    l(f.multi > 0, "multi line");
    l(f.comments > 0, "comment");
    l(f.docs > 1, "several documents");
    l(f.directives > 0, "directives");
    l(f.depth >= 5, "depth 5 and more");
    l(f.depth >= 50, "depth 50 and more");
    l(f.escapes > 0, "escape");
}

fn go(c: &mut Ctx, cfg: Cfg, nontrivial: fn(&Feats) -> bool) -> Result<(), String> {
    let d = stream(c, cfg, 6);
    class(c, &d.f);
    if nontrivial(&d.f) {
        c.nontrivial();
    }
    check_text(c, &d.text, &d.evs)
}

pub fn c05(c: &mut Ctx) -> Result<(), String> {
    let mut g = Cfg { flow: 6, explicit: 20, comments: 12, blanks: 10, depth: 6, budget: 40, docs: 2, directives: 2, ..Cfg::default() };
    match c.src.below(6) {
        0 => {}
        1 => {
            // structure only
            g.styles = [1, 0, 0, 0, 0];
            g.scalar_len = 0;
            g.w_seq = 12;
            g.w_map = 12;
            g.comments = 0;
            g.blanks = 0;
            g.props = 0;
        }
        2 => {
            g.depth = 12;
            g.budget = 80;
            g.w_seq = 10;
            g.w_map = 10;
        }
        3 => g.explicit = 60,
        4 => {
            g.comments = 40;
            g.blanks = 40;
        }
        _ => {
            g.w_empty = 5;
            g.props = 30;
            g.flow = 15;
        }
    }
    go(c, g, |f| f.collections > f.flows + 1)
}

pub fn c06(c: &mut Ctx) -> Result<(), String> {
    let mut g = Cfg { flow: 85, explicit: 12, multi: 15, depth: 5, budget: 40, docs: 2, directives: 2, spaces: 25, w_map: 8, w_seq: 8, ..Cfg::default() };
    match c.src.below(6) {
        0 => {}
        1 => {
            g.styles = [1, 0, 0, 0, 0];
            g.scalar_len = 0;
            g.multi = 0;
            g.props = 0;
        }
        2 => {
            g.multi = 40;
            g.comments = 30;
            g.blanks = 20;
        }
        3 => g.explicit = 50,
        4 => {
            g.depth = 12;
            g.budget = 80;
        }
        _ => {
            g.w_empty = 4;
            g.props = 30;
            g.styles = [4, 4, 4, 0, 0];
        }
    }
    go(c, g, |f| f.flows > 1)
}

pub fn c07(c: &mut Ctx) -> Result<(), String> {
    let mut g = Cfg { w_empty: 12, explicit: 30, props: 25, docs: 3, budget: 30, w_alias: 0, directives: 2, ..Cfg::default() };
    match c.src.below(4) {
        0 => g.flow = 5,
        1 => g.flow = 85,
        2 => {
            g.props = 70;
            g.explicit = 50;
        }
        _ => {
            g.styles = [1, 0, 0, 0, 0];
            g.scalar_len = 0;
            g.comments = 0;
            g.spaces = 0;
        }
    }
    go(c, g, |f| f.empties > 1)
}

fn scalar_cfg(c: &mut Ctx, styles: [usize; 5]) -> Cfg {
    let mut g = Cfg {
        styles,
        w_scalar: 14,
        root_coll: false,
        w_seq: 4,
        w_map: 5,
        budget: 12,
        multi: 25,
        scalar_len: 5,
        docs: 2,
        directives: 2,
        unicode: 15,
        trail: 15,
        tabs: 12,
        w_empty: 0,
        ..Cfg::default()
    };
    match c.src.below(5) {
        0 => {}
        1 => g.scalar_len = 20,
        2 => g.flow = 85,
        3 => {
            g.multi = 60;
            g.brk = *c.src.pick(&[Brk::Lf, Brk::CrLf, Brk::Mixed]);
        }
        _ => {
            g.budget = 2;
            g.scalar_len = 12;
        }
    }
    g
}

/// Contexts a single scalar may stand in: text before, text after, and the events around it
pub struct Around {
    pub pre: &'static str,
    pub post: &'static str,
    pub kind: Kind,
    pub flow: bool,
    pub key: bool,
    /// indentation of the enclosing block collection
    pub parent: i32,
}

pub const AROUND: &[Around] = &[
    Around { pre: "", post: "\n", kind: Kind::Root, flow: false, key: false, parent: -1 },
    Around { pre: "", post: "", kind: Kind::Root, flow: false, key: false, parent: -1 },
    Around { pre: "--- ", post: "\n...\n", kind: Kind::Root, flow: false, key: false, parent: -1 },
    Around { pre: "- ", post: "\n- z\n", kind: Kind::Entry, flow: false, key: false, parent: 0 },
    Around { pre: "k: ", post: "\nl: m\n", kind: Kind::Value, flow: false, key: false, parent: 0 },
    Around { pre: "k:\n  - l: ", post: "\n  - m\n", kind: Kind::Value, flow: false, key: false, parent: 4 },
    Around { pre: "? ", post: "\n: z\n", kind: Kind::Key, flow: false, key: false, parent: 0 },
    Around { pre: "", post: ": z\n", kind: Kind::Key, flow: false, key: true, parent: 0 },
    Around { pre: "[", post: "]\n", kind: Kind::Entry, flow: true, key: false, parent: -1 },
    Around { pre: "[a, ", post: ", b]\n", kind: Kind::Entry, flow: true, key: false, parent: -1 },
    Around { pre: "{k: ", post: "}", kind: Kind::Value, flow: true, key: false, parent: -1 },
    Around { pre: "{ ", post: ": v }", kind: Kind::Key, flow: true, key: true, parent: -1 },
    Around { pre: "- !t &a ", post: " # c\n", kind: Kind::Entry, flow: false, key: false, parent: 0 },
    Around { pre: "- [[{a: [", post: "]}]]\n- z\n", kind: Kind::Entry, flow: true, key: false, parent: 0 },
];

/// Events of the text with a placeholder, whose content is then exchanged
pub fn around_events(a: &Around, value: &str, style: Style) -> Result<Vec<Ev>, String> {
    let t = format!("{}'PLACE'{}", a.pre, a.post);
    let r = run_str(&t, Mode::Eager)?;
    if let Some(f) = r.fail {
        return Err(format!("{:?} fails: {:?}", t, f));
    }
    Ok(r.evs
        .into_iter()
        .map(|e| match e {
            Ev::Scalar { anchor, tag, kind, value: v, .. } if v == "PLACE" => {
                Ev::Scalar { anchor, tag, kind, style, value: value.into() }
            }
            e => e,
        })
        .collect())
}

/// A scalar alone, many pieces, in one of the contexts
fn lone(c: &mut Ctx, style: Style) -> Result<(), String> {
    let a = &AROUND[c.src.below(AROUND.len())];
    let len = c.src.range(1, 30);
    let cfg = Cfg { multi: 20, unicode: 20, trail: 20, tabs: 20, ..Cfg::default() };
    let (text, value) = {
        let mut g = Gen::new(&mut c.src, cfg);
        // as if something came before it on the line
        g.col = 1;
        g.bol = false;
        let v = match style {
            Style::Double => g.double_quoted(a.key, a.parent, len),
            Style::Single => g.single_quoted(a.key, a.parent, len),
            _ => g.plain(a.flow, a.key, a.parent, len.min(10)),
        };
        (g.out, v)
    };
    if a.key && text.len() > 900 {
        return Ok(());
    }
    let want = around_events(a, &value, style)?;
    if text.len() > 3 {
        c.nontrivial();
    }
    check_text(c, &format!("{}{}{}", a.pre, text, a.post), &want)
}

/// A text with a double quoted scalar that has a fault in its escapes
pub fn bad_escape(c: &mut Ctx) -> String {
    let s = &mut c.src;
    match s.below(7) {
        0 => {
            // no such escape
            const OK: &str = "0abtnvfre \"/\\N_LPxuU\t";
            let ch = match any_char(s) {
                ch if OK.contains(ch) => *s.pick(&['c', 'd', 'q', '1', 'X', 'A', 'l', 'p', '-', '\'', '.', ',', ':', '#', '[']),
                ch => ch,
            };
            format!("\\{}", ch)
        }
        1 => format!("\\x{}", ["", "4", "g0", "4g", " 41", "é1", "-1", "+1"][s.below(8)]),
        2 => format!("\\u{}", ["", "4", "41", "004", "004g", "00 41", "é041", "-041", "+041"][s.below(9)]),
        3 => format!("\\U{}", ["", "0", "00041", "0000004", "0000004g", "+0000041", "000 0041", "-0000041"][s.below(8)]),
        4 => format!("\\u{:04x}", s.range(0xd800, 0xdfff)),
        5 => format!("\\U{:08X}", s.range(0x110000, 0xffffffff)),
        _ => format!("\\U{:08x}", s.range(0xd800, 0xdfff)),
    }
}

pub fn c08(c: &mut Ctx) -> Result<(), String> {
    match c.src.weighted(&[40, 40, 20]) {
        0 => {
            let g = scalar_cfg(c, [2, 0, 20, 0, 0]);
            go(c, g, |f| f.escapes > 0)
        }
        1 => {
            c.label("alone");
            lone(c, Style::Double)
        }
        _ => {
            // faulty escapes
            c.label("faulty escape");
            c.nontrivial();
            let a = &AROUND[c.src.below(AROUND.len())];
            let bad = bad_escape(c);
            let cut = c.src.pct(10);
            let (pre, post) = {
                let mut g = Gen::new(&mut c.src, Cfg::default());
                g.col = 1;
                g.bol = false;
                let x = g.src.below(6);
                g.double_quoted(a.key, a.parent, x);
                let pre = g.out[1..g.out.len() - 1].to_string();
                g.out.clear();
                g.double_quoted(a.key, a.parent, x);
                (pre, g.out[1..g.out.len() - 1].to_string())
            };
            // what follows must not complete it: hexadecimal digits could
            let post = match post.chars().next() {
                Some(ch) if ch.is_ascii_hexdigit() => format!("z{}", post),
                _ => post,
            };
            // nor may what comes before take its backslash away
            let text = if cut {
                format!("{}\"{}{}", a.pre, pre, bad)
            } else {
                format!("{}\"{}{}{}\"{}", a.pre, pre, bad, post, a.post)
            };
            c.input(text.as_bytes());
            let via = any_via(&mut c.src, text.len());
            for mode in [Mode::Eager, any_mode(&mut c.src)] {
                let r = run_via(text.as_bytes(), &via, mode)?;
                match r.fail {
                    None => return Err(format!("{:?} {:?}: accepted with the escape {:?}: {}", via, mode, bad, compact(&r.evs))),
                    Some(f) if f.cat == Cat::Io => return Err(format!("{:?} {:?}: reported as {:?}", via, mode, f)),
                    _ => {}
                }
            }
            Ok(())
        }
    }
}

pub fn c09(c: &mut Ctx) -> Result<(), String> {
    if c.src.pct(50) {
        let g = scalar_cfg(c, [2, 20, 0, 0, 0]);
        return go(c, g, |f| f.collections > 0);
    }
    c.label("alone");
    lone(c, Style::Single)
}

pub fn c10(c: &mut Ctx) -> Result<(), String> {
    if c.src.pct(70) {
        let mut g = scalar_cfg(c, [20, 0, 0, 0, 0]);
        if c.src.pct(30) {
            g.comments = 30;
        }
        return go(c, g, |f| f.multi > 0 || f.flows > 0);
    }
    c.label("alone");
    lone(c, Style::Plain)
}

/// A block scalar in any place, with any header and any way to end
fn block_scalar_case(c: &mut Ctx) -> Result<(), String> {
    // place: text up to the header, indentation of the parent (-1 at the root), events around it
    struct Place {
        pre: &'static str,
        parent: i32,
        before: &'static [&'static str],
        next: &'static [&'static str],
    }
    const PLACES: &[Place] = &[
        Place { pre: "", parent: -1, before: &[], next: &["", "---\n", "...\n"] },
        Place { pre: "--- ", parent: -1, before: &[], next: &["", "---\n", "...\n"] },
        Place { pre: "--- !t &a ", parent: -1, before: &[], next: &["", "---\n", "...\n"] },
        Place { pre: "- ", parent: 0, before: &[], next: &["", "- z\n", "---\n", "...\n", "# c\n- z\n"] },
        Place { pre: "k: ", parent: 0, before: &[], next: &["", "l: m\n", "---\n", "...\n", "# c\n", "#c\nl: m\n"] },
        Place { pre: "? ", parent: 0, before: &[], next: &["", ": z\n", "? z\n", "# c\n: z\n"] },
        Place { pre: "? a\n: ", parent: 0, before: &[], next: &["", "b: z\n", "? z\n"] },
        Place { pre: "k:\n    l: ", parent: 4, before: &[], next: &["", "    m: n\n", "o: p\n", "---\n", "    # c\n    m: n\n", "# c\no: p\n"] },
        Place { pre: "- - k: &a ", parent: 4, before: &[], next: &["", "    m: n\n", "  - z\n", "- z\n", "...\n"] },
        Place { pre: "k:\n- ", parent: 0, before: &[], next: &["", "- z\n", "l: m\n"] },
        Place { pre: "- a\n-\n  ", parent: 0, before: &[], next: &["", "- z\n"] },
        Place { pre: "k:\n ", parent: 0, before: &[], next: &["", "l: m\n"] },
        Place { pre: "k: !t\n  &a\n   ", parent: 0, before: &[], next: &["", "l: m\n", "...\n"] },
    ];
    let p = &PLACES[c.src.below(PLACES.len())];
    let next = *c.src.pick(p.next);
    let _ = p.before;
    let folded = c.src.pct(50);
    let chomp = c.src.below(3);
    let base = p.parent.max(0) as usize;
    // lines
    let n = c.src.count(8, 75);
    let mut lines: Vec<Option<String>> = vec![];
    for _ in 0..n {
        match c.src.weighted(&[6, 3, 3, 1]) {
            0 => {
                let t = line(c);
                lines.push(Some(t));
            }
            1 => lines.push(None),
            2 => {
                // more indented
                let k = c.src.range(1, 3);
                let t = line(c);
                let w = if c.src.pct(20) { "\t" } else { " " };
                lines.push(Some(w.repeat(k) + &t));
            }
            _ => {
                // white space and nothing else, beyond the indentation
                let k = c.src.range(1, 3);
                lines.push(Some(" ".repeat(k)));
            }
        }
    }
    let first = lines.iter().position(|l| l.is_some());
    let needs = first.map_or(false, |i| lines[i].as_ref().unwrap().starts_with(|ch| ch == ' ' || ch == '\t'));
    let explicit = needs || c.src.pct(35);
    let d = if explicit { c.src.range(1, 9) } else { 1 + c.src.count(12, 60) };
    let ind = base + d;
    let trailing = c.src.count(4, 45);
    for _ in 0..trailing {
        lines.push(None);
    }
    let has_text = lines.iter().any(|l| l.is_some());
    let mut head = String::from(if folded { ">" } else { "|" });
    let ch = ["", "-", "+"][chomp];
    let dg = if explicit { d.to_string() } else { String::new() };
    if c.src.pct(50) {
        head += ch;
        head += &dg;
    } else {
        head += &dg;
        head += ch;
    }
    match c.src.below(6) {
        3 => head += "  ",
        4 => head += " # comment: |2",
        5 => head += "\t#",
        _ => {}
    }
    let brk = *c.src.pick(&["\n", "\n", "\n", "\r\n", "\r", "\u{85}"]);
    let mut t = String::from(p.pre);
    t += &head;
    let eof = next.is_empty() && c.src.pct(50);
    // Lines with nothing after the header's line: the header may be the last thing
    let mut value = block_value(&lines, folded, chomp);
    if lines.is_empty() && eof {
        // nothing follows
    } else {
        t += brk;
        for (i, l) in lines.iter().enumerate() {
            match l {
                None => {
                    let max = if has_text || explicit { ind } else { base };
                    // fewer spaces than the indentation, or just as many
                    let k = match c.src.below(4) {
                        2 => c.src.range(0, max),
                        3 => max,
                        _ => 0,
                    };
                    t += &" ".repeat(k);
                }
                Some(s) => {
                    t += &" ".repeat(ind);
                    t += s;
                }
            }
            let last = i + 1 == lines.len();
            if !(last && eof) {
                t += brk;
            } else {
                c.label("ends without a line break");
                match l {
                    // text that no break follows
                    Some(_) => {
                        if value.ends_with('\n') {
                            value.pop();
                        }
                    }
                    None => {
                        if chomp == 2 {
                            value.pop();
                        }
                    }
                }
            }
        }
        t += next;
    }
    // a comment line that follows has to be less indented than text
    let style = if folded { Style::Folded } else { Style::Literal };
    // what the text around it means, from a scalar on one line in its place
    let around = format!("{}'PLACE'\n{}", p.pre, next);
    let r = run_str(&around, Mode::Eager)?;
    if let Some(f) = r.fail {
        return Err(format!("{:?} fails: {:?}", around, f));
    }
    let want: Vec<Ev> = r
        .evs
        .into_iter()
        .map(|e| match e {
            Ev::Scalar { anchor, tag, kind, value: v, .. } if v == "PLACE" => Ev::Scalar { anchor, tag, kind, style, value: value.clone() },
            e => e,
        })
        .collect();
    if lines.len() > 1 {
        c.nontrivial();
    }
    c.label(["clip", "strip", "keep"][chomp]);
    if explicit {
        c.label("stated indentation");
    }
    if !has_text {
        c.label("no text");
    }
    check_text(c, &t, &want)
}

fn line(c: &mut Ctx) -> String {
    let mut s = String::new();
    let n = c.src.range(1, 6);
    for i in 0..n {
        let ch = match c.src.below(4) {
            0 => any_char(&mut c.src),
            1 if i > 0 => *c.src.pick(&[' ', ' ', '\t']),
            2 => *c.src.pick(&['#', '-', ':', '?', '\'', '"', '\\', '|', '>', '%', '[', '}', '&', '*', '!', '.', '@', '`', ',']),
            _ => *c.src.pick(&['a', 'b', 'c']),
        };
        s.push(ch);
    }
    if c.src.pct(8) {
        s.push(*c.src.pick(&[' ', '\t']));
    }
    s
}

pub fn c11(c: &mut Ctx) -> Result<(), String> {
    if c.src.pct(50) {
        let g = scalar_cfg(c, [3, 0, 0, 10, 10]);
        return go(c, g, |f| f.block_scalars > 0);
    }
    block_scalar_case(c)
}

pub fn c12(c: &mut Ctx) -> Result<(), String> {
    if c.src.pct(25) {
        let g = scalar_cfg(c, [3, 0, 0, 10, 10]);
        return go(c, g, |f| f.block_scalars > 0);
    }
    block_scalar_case(c)
}

pub fn c13(c: &mut Ctx) -> Result<(), String> {
    match c.src.below(8) {
        // nothing but comments and blank lines
        0 => {
            let text = {
                let cfg = Cfg { comments: 60, blanks: 40, brk: *c.src.pick(&[Brk::Lf, Brk::Mixed]), ..Cfg::default() };
                let mut g = Gen::new(&mut c.src, cfg);
                g.spike(4);
                g.filler();
                g.filler();
                if g.src.pct(30) {
                    g.put("  ");
                }
                if g.src.pct(30) {
                    g.put("# end");
                }
                g.out
            };
            c.label("no content");
            if !text.is_empty() {
                c.nontrivial();
            }
            check_text(c, &text, &[Ev::StreamStart, Ev::doc(true), Ev::DocEnd { implicit: true }, Ev::StreamEnd])
        }
        1 | 2 => {
            let g = Cfg {
                docs: 6,
                budget: 6,
                root_coll: false,
                styles: [5, 4, 4, 6, 6],
                scalar_len: 4,
                multi: 40,
                directives: 15,
                w_seq: 2,
                w_map: 2,
                ..Cfg::default()
            };
            go(c, g, |f| f.docs > 1)
        }
        3 => {
            let n = *c.src.pick(&[20, 60, 300]);
            let g = Cfg { docs: n, root_coll: false, budget: 2, w_seq: 1, w_map: 1, scalar_len: 1, ..Cfg::default() };
            go(c, g, |f| f.docs > 1)
        }
        4 => {
            let g = Cfg { docs: 6, budget: 4, comments: 40, blanks: 30, trail: 30, brk: Brk::Mixed, ..Cfg::default() };
            go(c, g, |f| f.docs > 1)
        }
        _ => {
            let g = Cfg { docs: 8, budget: 6, directives: 25, w_empty: 4, ..Cfg::default() };
            go(c, g, |f| f.docs > 1)
        }
    }
}

pub fn c14(c: &mut Ctx) -> Result<(), String> {
    if c.src.pct(75) {
        let g = Cfg { docs: 6, budget: 5, directives: 75, props: 40, comments: 15, w_empty: 2, ..Cfg::default() };
        return go(c, g, |f| f.directives > 0);
    }
    // what is an error: a handle of another document, twice the same in one document, or no document after them
    if c.src.pct(25) {
        return undeclared(c, true);
    }
    c.label("faulty");
    c.nontrivial();
    let cfg = Cfg { docs: 3, budget: 5, directives: 60, ..Cfg::default() };
    let head = stream(c, cfg, 0);
    let mut t = head.text.clone();
    if !t.is_empty() && !t.ends_with(is_brk) {
        t.push('\n');
    }
    t.push_str("...\n");
    let n_before = t.len();
    let h = ["!", "!!", "!a!", "!Z9!", "!long0handle!"][c.src.below(5)];
    let v = format!("%YAML {}.{}", c.src.below(3), c.src.below(3));
    let mut lines: Vec<String> = vec![];
    let mut opt = |c: &mut Ctx, lines: &mut Vec<String>| {
        let n = [0, 1, 2, 3, 3, 12, 40][c.src.below(7)];
        for i in 0..n {
            lines.push(format!("%TAG !o{}x{}! tag:o,{}", lines.len(), i, i));
        }
        if c.src.pct(30) {
            lines.push(["# %YAML 1.2", "", "  # %TAG ! !", " "][c.src.below(4)].into());
        }
    };
    let kind = c.src.below(5);
    match kind {
        4 => {
            // versions that do not fit
            let big = *c.src.pick(&[256usize, 257, 258, 511, 512, 999, 1000, 65535, 65536, 65537, 4294967297, 18446744073709551615]);
            let k = c.src.below(10);
            lines.push(if c.src.pct(50) { format!("%YAML {}.{}", k, big) } else { format!("%YAML {}.{}", big, k) });
            opt(c, &mut lines);
            lines.push("--- a".into());
        }
        0 => {
            if c.src.pct(40) {
                opt(c, &mut lines);
            }
            lines.push(v.clone());
            opt(c, &mut lines);
            let w = if c.src.pct(50) { v.clone() } else { "%YAML 1.2".into() };
            lines.push(w);
            lines.push("--- a".into());
        }
        1 => {
            let x = if c.src.pct(50) { "tag:x,1:" } else { "!p" };
            if c.src.pct(40) {
                opt(c, &mut lines);
            }
            lines.push(format!("%TAG {} {}", h, x));
            opt(c, &mut lines);
            let y = if c.src.pct(50) { x } else { "tag:y,2:" };
            lines.push(format!("%TAG {} {}", h, y));
            if c.src.pct(30) {
                lines.insert(0, v.clone());
            }
            lines.push("---".into());
        }
        2 => {
            if c.src.pct(50) {
                lines.push(v.clone());
            } else {
                lines.push(format!("%TAG {} tag:x,1:", h));
            }
            opt(c, &mut lines);
        }
        _ => {
            if c.src.pct(50) {
                lines.push(v.clone());
            } else {
                lines.push(format!("%TAG {} tag:x,1:", h));
            }
            opt(c, &mut lines);
            lines.push(["a", "a: b", "[a]", "- a", "\"q\"", "&a b", "...", "!t u", "|\n x", "? a"][c.src.below(10)].into());
            if c.src.pct(50) {
                lines.push("---".into());
            }
        }
    }
    let brk = *c.src.pick(&["\n", "\n", "\r\n", "\r"]);
    t.push_str(&lines.join(brk));
    if c.src.pct(50) {
        t.push_str(brk);
    }
    c.input(t.as_bytes());
    let via = any_via(&mut c.src, t.len());
    let r = run_via(t.as_bytes(), &via, any_mode(&mut c.src))?;
    match &r.fail {
        None => return Err(format!("accepted: {}", compact(&r.evs))),
        Some(f) if f.cat == Cat::Io => return Err(format!("reported as {:?}", f)),
        _ => {}
    }
    // the documents before are not affected, but for the explicit end
    let mut want = head.evs.clone();
    want.pop();
    if let Some(l) = want.last_mut() {
        *l = Ev::DocEnd { implicit: false };
    }
    let _ = n_before;
    if r.evs.len() < want.len() || r.evs[..want.len()] != want[..] {
        return Err(format!("documents before the fault: expected {} got {}", compact(&want), compact(&r.evs)));
    }
    Ok(())
}

pub fn c15(c: &mut Ctx) -> Result<(), String> {
    if c.src.pct(75) {
        let mut g = Cfg { props: 60, docs: 3, directives: 60, w_empty: 3, budget: 16, ..Cfg::default() };
        if c.src.pct(40) {
            g.flow = 85;
        }
        return go(c, g, |f| f.tags > 0);
    }
    undeclared(c, false)
}
/// A handle that is not declared, not any more (.other: only this) or not yet
fn undeclared(c: &mut Ctx, other: bool) -> Result<(), String> {
    c.label("undeclared");
    c.nontrivial();
    let decl = other || c.src.pct(60);
    let near = ["!a!", "!ab!", "!b!", "!A!", "!aa!", "!0!", "!abc!", "!c!", "!d!", "!e!"];
    // the handle that is used without being declared
    let j = c.src.below(near.len());
    let set = |src: &mut crate::engine::Src, must: bool| -> String {
        let mut v: Vec<String> = vec![];
        let n = if src.pct(30) { src.below(9) } else { src.below(3) };
        for _ in 0..n {
            let k = src.below(near.len() + 2);
            let h = match k.checked_sub(near.len()) {
                Some(0) => "!",
                Some(_) => "!!",
                None if k == j => continue,
                None => near[k],
            };
            let l = format!("%TAG {} tag:x,{}:\n", h, n);
            if !v.iter().any(|x| x.starts_with(&format!("%TAG {} ", h))) {
                v.push(l);
            }
        }
        if must {
            let at = src.below(v.len() + 1);
            v.insert(at, format!("%TAG {} tag:x,1:\n", near[j]));
        }
        if src.pct(15) {
            let at = src.below(v.len() + 1);
            v.insert(at, "%YAML 1.1\n".to_string());
        }
        v.concat()
    };
    let mut head = String::new();
    let mut last = String::new();
    if decl {
        let earlier = other || c.src.pct(66);
        let dirs = set(&mut c.src, earlier);
        if earlier {
            // declared for an earlier document only
            head += &dirs;
            head += "---\n";
            let k = c.src.below(3);
            head += &[format!("- {}t x\n", near[j]), format!("{{{}t x: y}}\n", near[j]), "x\n".to_string()][k];
            // and perhaps other documents in between
            for n in 0..[0, 0, 0, 1, 1, 2, 5, 40][c.src.below(8)] {
                match c.src.below(6) {
                    0 => head += "---\n- x\n",
                    1 => head += "--- x\n",
                    2 => head += "...\n%YAML 1.1\n---\nx\n",
                    3 => head += &format!("...\n%TAG !o{}! tag:o,1:\n---\n!o{}!t x\n", n, n),
                    4 => {
                        let must = c.src.pct(30);
                        head += &format!("...\n{}---\nx\n", set(&mut c.src, must))
                    }
                    _ => head += "...\nx\n",
                }
            }
            match c.src.below(6) {
                0 => head += "...\n",
                1 => head += "...\n---\n",
                2 => head += "---\n",
                _ => {
                    last = set(&mut c.src, false);
                    head += &format!("...\n{}---\n", last);
                }
            }
        } else {
            last = dirs;
            head += &format!("{}---\n", last);
        }
    }
    // nodes with tags that are declared
    let good: Vec<&str> = last.lines().filter(|l| l.starts_with("%TAG")).map(|l| l.split(' ').nth(1).unwrap_or("!")).collect();
    let mut pre = String::new();
    if c.src.pct(40) {
        for _ in 0..c.src.range(1, 4) {
            let h = if good.is_empty() || c.src.pct(30) { *c.src.pick(&["!", "!!"]) } else { *c.src.pick(&good) };
            pre += &format!("- {}t {}\n", h, c.src.pick(&["x", "[a, b]", "&a", "'y'", "{k: v}"]));
        }
    }
    let use_ = format!("{}{}", near[j], c.src.pick(&["t", "t", "t", "str", ""]));
    let (place, before): (String, usize) = match c.src.below(8) {
        0 => (format!("{} x\n", use_), 0),
        1 => (format!("- a\n- {} x\n", use_), 2),
        2 => (format!("k: {}\n", use_), 2),
        3 => (format!("[a, {} b]\n", use_), 2),
        4 => (format!("{{{} k: v}}\n", use_), 1),
        5 => (format!("- {} [a]\n", use_), 1),
        6 => (format!("- &x {}\n  k: v\n", use_), 1),
        _ => (format!("- {} &x |\n  k\n", use_), 1),
    };
    let (place, before) = if pre.is_empty() {
        (place, before)
    } else {
        // as a further entry
        let mut p = pre.clone();
        for (n, l) in place.lines().enumerate() {
            p += &format!("{}{}\n", if n == 0 { "- " } else { "  " }, l);
        }
        (p, 1)
    };
    let t = format!("{}{}", head, place);
    c.input(t.as_bytes());
    let want = if head.is_empty() { Some(vec![]) } else { run_str(&head, Mode::Eager).map(|r| if r.fail.is_none() { Some(r.evs) } else { None })? };
    let via = any_via(&mut c.src, t.len());
    let r = run_via(t.as_bytes(), &via, any_mode(&mut c.src))?;
    match &r.fail {
        None => return Err(format!("accepted: {}", compact(&r.evs))),
        Some(f) if f.cat == Cat::Io => return Err(format!("reported as {:?}", f)),
        _ => {}
    }
    if let Some(w) = want {
        // but for the end of the document and of the stream
        let n = w.len().saturating_sub(2);
        if r.evs.len() < n + before.min(1) || r.evs[..n] != w[..n] {
            return Err(format!("what came before: expected {} got {}", compact(&w[..n]), compact(&r.evs)));
        }
    }
    Ok(())
}

pub fn c16(c: &mut Ctx) -> Result<(), String> {
    let mut g = Cfg { props: 60, w_alias: 6, docs: 3, directives: 5, w_empty: 3, budget: 20, ..Cfg::default() };
    match c.src.below(4) {
        0 => g.flow = 85,
        1 => g.flow = 5,
        2 => {
            g.comments = 25;
            g.spaces = 40;
        }
        _ => {}
    }
    go(c, g, |f| f.anchors > 0 && f.aliases > 0)
}

pub fn c17(c: &mut Ctx) -> Result<(), String> {
    let mut g = Cfg { comments: 45, blanks: 35, trail: 40, spaces: 40, tabs: 25, unicode: 20, multi: 25, docs: 3, ..any_cfg(&mut c.src) };
    if c.src.pct(30) {
        g.brk = Brk::Mixed;
    }
    go(c, g, |f| f.comments + f.blanks + f.trailing > 1)
}

pub fn c18(c: &mut Ctx) -> Result<(), String> {
    let mut g = any_cfg(&mut c.src);
    g.multi = g.multi.max(25);
    g.styles = [6, 4, 4, 6, 6];
    if c.src.pct(50) {
        g.brk = *c.src.pick(&[Brk::Mixed, Brk::Mixed, Brk::CrLf, Brk::Cr, Brk::Nel, Brk::Ls, Brk::Ps]);
        return go(c, g, |f| f.breaks > 2);
    }
    // the same text with its line breaks exchanged
    g.brk = Brk::Lf;
    g.unicode = g.unicode.min(20);
    let d = stream(c, g, 4);
    class(c, &d.f);
    if d.f.breaks > 2 {
        c.nontrivial();
    }
    let kinds: &[&str] = &["\r\n", "\r", "\u{85}", "\u{2028}", "\u{2029}", "\n"];
    let one = if c.src.pct(50) { Some(*c.src.pick(kinds)) } else { None };
    let mut t = String::new();
    for ch in d.text.chars() {
        if ch == '\n' {
            let k = one.unwrap_or_else(|| *c.src.pick(kinds));
            // CR and LF side by side would be one break
            if k == "\n" && t.ends_with('\r') {
                t.push('\r');
            } else {
                t.push_str(k);
            }
        } else {
            t.push(ch);
        }
    }
    c.label("exchanged");
    check_text(c, &t, &d.evs)
}

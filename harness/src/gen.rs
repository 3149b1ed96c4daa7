//! Writes random YAML together with the events its rules assign to it. The expected events come from what is
//! being written, never from reading the text back.

use std::collections::BTreeMap;

use crate::engine::Src;
use crate::ev::{default_tags, Ev, Kind, Style, Tag};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Brk {
    Lf,
    CrLf,
    Cr,
    Nel,
    Ls,
    Ps,
    Mixed,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub depth: usize,
    /// Levels of collections inside of each other that there are at least
    pub tower: usize,
    pub width: usize,
    /// Upper bound on nodes of one document
    pub budget: isize,
    pub w_scalar: usize,
    /// the root is a collection more often
    pub root_coll: bool,
    pub w_seq: usize,
    pub w_map: usize,
    pub w_alias: usize,
    pub w_empty: usize,
    /// percent of collections in block context that are flow collections
    pub flow: usize,
    pub explicit: usize,
    pub props: usize,
    pub comments: usize,
    pub blanks: usize,
    pub trail: usize,
    pub spaces: usize,
    pub tabs: usize,
    pub multi: usize,
    pub unicode: usize,
    /// plain, single, double, literal, folded
    pub styles: [usize; 5],
    pub brk: Brk,
    pub directives: usize,
    pub docs: usize,
    pub scalar_len: usize,
    /// The one large thing may be far larger still
    pub huge: bool,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            depth: 4,
            tower: 0,
            width: 4,
            budget: 24,
            w_scalar: 10,
            root_coll: true,
            w_seq: 6,
            w_map: 6,
            w_alias: 1,
            w_empty: 1,
            flow: 30,
            explicit: 15,
            props: 10,
            comments: 8,
            blanks: 6,
            trail: 5,
            spaces: 10,
            tabs: 3,
            multi: 12,
            unicode: 10,
            styles: [10, 3, 3, 2, 2],
            brk: Brk::Lf,
            directives: 10,
            docs: 3,
            scalar_len: 3,
            huge: false,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pos {
    /// At the start of a line, nothing before it in the document
    Bare,
    /// After '---'
    Marker,
    /// After '-'
    Entry,
    /// After '?'
    ExplicitKey,
    /// After the ':' of an explicit key
    ExplicitValue,
    /// After 'key:'
    Value,
}

/// What was written, for classification
#[derive(Clone, Debug, Default)]
pub struct Feats {
    pub collections: usize,
    pub flows: usize,
    pub depth: usize,
    pub comments: usize,
    pub blanks: usize,
    pub empties: usize,
    pub explicit: usize,
    pub anchors: usize,
    pub aliases: usize,
    pub tags: usize,
    pub multi: usize,
    pub block_scalars: usize,
    pub zero_indent: usize,
    pub compact: usize,
    pub pairs: usize,
    pub flow_keys: usize,
    pub breaks: usize,
    pub docs: usize,
    pub directives: usize,
    pub escapes: usize,
    pub trailing: usize,
}

/// Where something that can be broken was written
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MarkKind {
    /// The end of an opening bracket
    FlowOpen { outer: bool },
    /// The start of a closing bracket
    FlowClose { outer: bool },
    /// The start of a comma; `solid`: what comes before it is quoted or bracketed
    Comma { solid: bool, last: bool },
    /// The start of a line with a block entry or key, indented by m columns; parent is the enclosing indentation
    Line { first: bool, m: usize, parent: i32, map: bool },
    /// The start of the ':' of an implicit key in block context
    Colon { m: usize },
    /// The start of a quoted scalar
    Quoted { end: usize, double: bool, flow: bool },
}

#[derive(Clone, Copy, Debug)]
pub struct Mark {
    pub pos: usize,
    /// Events before it
    pub ev: usize,
    pub in_key: bool,
    pub kind: MarkKind,
}

pub struct Gen<'a> {
    pub src: &'a mut Src,
    pub cfg: Cfg,
    pub out: String,
    pub evs: Vec<Ev>,
    pub marks: Vec<Mark>,
    flow_depth: usize,
    /// Levels of the tower there are
    spine: usize,
    pub f: Feats,
    pub col: usize,
    pub bol: bool,
    /// content indentation of the block scalar that just ended
    after_block: Option<usize>,
    /// handles usable in the current document: handle
    pub handles: Vec<String>,
    left: isize,
    anchors: Vec<String>,
    no_blank_key: bool,
    /// inside of an implicit key: how deep
    in_key: usize,
    big: Option<(Big, usize)>,
    after_nothing: bool,
}

pub const WORDS: [&str; 28] = [
    "a", "b", "key", "value", "true", "1", "-1.5", "null", "~", "foo.bar", "x-y", "http://example.com/a?b=c#d", "<<", "=", ".inf", "-.INF",
    ".nan", "0x1F", "0o14", "+12", "1e3", "2001-12-14T21:59:43.10-05:00", "20:30:20", "No", "off", "YAML", "TAG", "0",
];
/// Tags that have a meaning of their own
const KNOWN: [&str; 13] = ["str", "int", "float", "bool", "null", "seq", "map", "binary", "set", "omap", "merge", "timestamp", "value"];
/// Characters whose encodings or looks resemble line breaks, white space or indicators, and the ends of ranges
pub const WIDE: [char; 26] = [
    'é', 'ß', 'Ω', '中', '文', '😀', '\u{a0}', '\u{301}', '\u{10ffff}', '\u{d7ff}', '\u{e000}', 'Å', 'Â', '…',
    '\u{2027}', '\u{202a}', '₨', '\u{3000}', '\u{2003}', '\u{200b}', '\u{fffd}', '\u{10000}', '：', '＃', '“', '\u{7ff}',
];

/// Any printable character that is neither white space, a line break nor a byte order mark
pub fn any_char(src: &mut Src) -> char {
    let n = match src.below(8) {
        0 | 1 => src.range(0x21, 0x7e),
        2 => return *src.pick(&WIDE),
        3 => src.range(0xa0, 0x24f),
        4 => src.range(0x2000, 0x20ff),
        5 => src.range(0x250, 0xd7ff),
        6 => src.range(0xe000, 0xfffd),
        _ => src.range(0x10000, 0x10ffff),
    };
    match n as u32 {
        0x2028 | 0x2029 | 0xfeff => 'B',
        n => char::from_u32(n).unwrap_or('S'),
    }
}

/// One thing that is far larger than usual in a stream
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Big {
    Width,
    Indent,
    Pieces,
    Word,
    Comment,
    Gap,
    Blanks,
    Anchor,
    Tag,
    Folds,
    Trailing,
}

const BIGS: [Big; 11] = [
    Big::Width,
    Big::Indent,
    Big::Pieces,
    Big::Word,
    Big::Comment,
    Big::Gap,
    Big::Blanks,
    Big::Anchor,
    Big::Tag,
    Big::Folds,
    Big::Trailing,
];

pub fn is_brk(c: char) -> bool {
    matches!(c, '\n' | '\r' | '\u{85}' | '\u{2028}' | '\u{2029}')
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Src, cfg: Cfg) -> Self {
        Gen {
            src,
            cfg,
            out: String::new(),
            evs: vec![],
            marks: vec![],
            flow_depth: 0,
            spine: 0,
            f: Feats::default(),
            col: 0,
            bol: true,
            after_block: None,
            handles: vec!["!".into(), "!!".into()],
            left: 0,
            anchors: vec![],
            no_blank_key: false,
            in_key: 0,
            big: None,
            after_nothing: false,
        }
    }

    fn mark(&mut self, kind: MarkKind) {
        self.marks.push(Mark { pos: self.out.len(), ev: self.evs.len(), in_key: self.in_key > 0, kind });
    }

    /// Perhaps makes one thing of the stream far larger than usual
    pub fn spike(&mut self, pct: usize) {
        if !self.src.pct(pct) {
            return;
        }
        if self.src.pct(35) {
            // deep instead of long
            self.tower();
            return;
        }
        let b = *self.src.pick(&BIGS);
        let skip = self.src.below(4);
        self.big = Some((b, skip));
    }

    /// Makes the stream deep
    pub fn tower(&mut self) {
        let n = match self.src.below(4) {
            0 => self.src.range(60, 300),
            1 => *self.src.pick(&[15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]),
            _ => self.src.range(10, 70),
        };
        self.cfg.tower = n;
        self.cfg.depth = n.min(60);
        self.cfg.budget = self.cfg.budget.max(n as isize + 60);
        // without neighbours, many levels end at once
        self.cfg.width = self.src.range(1, 2);
        self.cfg.w_scalar = self.cfg.w_scalar.min(2);
        if self.cfg.flow < 50 && self.src.pct(85) {
            self.cfg.flow = 0;
        }
    }

    /// Whether a node has to be a collection
    fn spine(&mut self, depth: usize) -> bool {
        let more = self.in_key == 0 && depth == self.spine && depth < self.cfg.tower;
        self.spine += more as usize;
        more
    }

    /// Once in the stream, and outside of implicit keys, a large number in place of a usual one
    fn big(&mut self, b: Big, max: usize) -> Option<usize> {
        match self.big {
            Some((w, skip)) if w == b && self.in_key == 0 => {
                if skip > 0 {
                    self.big = Some((w, skip - 1));
                    return None;
                }
                self.big = None;
                if self.cfg.huge {
                    let max = max.max(70_000);
                    let n = match self.src.below(6) {
                        0 | 1 => self.src.range(max / 20, max),
                        2 => self.src.range(1_000, 20_000),
                        3 => *self.src.pick(&[255, 511, 1023, 2047, 4095, 8191]) + self.src.below(5),
                        4 => *self.src.pick(&[16_383, 32_767, 65_535]) + self.src.below(5),
                        _ => self.src.range(65_530, max),
                    };
                    return Some(n);
                }
                // most interesting around the sizes of small integers and buffers
                let n = match self.src.below(4) {
                    0 => self.src.range(max / 20, max),
                    1 => *self.src.pick(&[127, 128, 255, 256, 257, 1023, 1024, 1025, 4096]) + self.src.below(3),
                    _ => self.src.range(max / 20, max / 4),
                };
                Some(n.min(max))
            }
            _ => None,
        }
    }

    // ---- text ----

    pub fn put(&mut self, s: &str) {
        if s.is_empty() {
            return;
        }
        self.out.push_str(s);
        self.col += s.chars().count();
        self.bol = false;
        self.after_block = None;
    }

    pub fn putc(&mut self, c: char) {
        let mut b = [0; 4];
        let s: &str = c.encode_utf8(&mut b);
        self.put(s);
    }

    pub fn pad(&mut self, n: usize) {
        for _ in 0..n {
            self.out.push(' ');
        }
        self.col += n;
        if n > 0 {
            self.bol = false;
        }
    }

    pub fn raw_break(&mut self) {
        let kind = match self.cfg.brk {
            Brk::Mixed => {
                *self.src.pick(&[Brk::Lf, Brk::CrLf, Brk::Cr, Brk::Nel, Brk::Ls, Brk::Ps, Brk::Lf, Brk::CrLf])
            }
            b => b,
        };
        let s = match kind {
            Brk::Lf if self.out.ends_with('\r') => "\r\n",
            Brk::Lf => "\n",
            Brk::CrLf => "\r\n",
            Brk::Cr => "\r",
            Brk::Nel => "\u{85}",
            Brk::Ls => "\u{2028}",
            _ => "\u{2029}",
        };
        self.out.push_str(s);
        self.col = 0;
        self.bol = true;
        self.f.breaks += 1;
    }

    fn comment_text(&mut self) -> String {
        let mut s = String::from("#");
        if let Some(n) = self.big(Big::Comment, 20000) {
            let unit = *self.src.pick(&["c", "é", ": ", "# ", "😀x", "\t", "- "]);
            return s + &unit.repeat(n / unit.len() + 1);
        }
        let n = self.src.count(12, 70);
        for _ in 0..n {
            let c = *self.src.pick(&[
                'c', ' ', 'o', ':', '#', '"', '\'', '-', '[', '}', '&', '*', '!', '%', '@', '\t', '\\', '|', ',', '?',
            ]);
            s.push(c);
            if self.src.pct(self.cfg.unicode) {
                s.push(any_char(self.src));
            }
        }
        if self.src.pct(4) {
            let k = self.src.range(1, 60);
            for _ in 0..k {
                s.push_str("long: [ ");
            }
        }
        s
    }

    fn blank_char(&mut self) -> char {
        if self.src.pct(self.cfg.tabs) {
            '\t'
        } else {
            ' '
        }
    }

    /// Ends the current line (if anything is on it), perhaps with white space or a comment.
    pub fn end_line(&mut self) {
        if self.bol {
            self.filler();
            return;
        }
        self.line_tail();
        self.raw_break();
        self.filler();
    }

    /// White space and a comment, perhaps, before the end of a line
    fn line_tail(&mut self) {
        if self.src.pct(self.cfg.trail) {
            let n = self.src.range(1, 4);
            for _ in 0..n {
                let c = self.blank_char();
                self.putc(c);
            }
            self.f.trailing += 1;
        }
        if self.src.pct(self.cfg.comments) {
            let n = self.src.range(1, 3);
            for _ in 0..n {
                let c = self.blank_char();
                self.putc(c);
            }
            let t = self.comment_text();
            self.put(&t);
            self.f.comments += 1;
        }
    }

    /// Blank and comment lines, at the start of a line
    pub fn filler(&mut self) {
        let mut limit = self.after_block.take();
        if limit.is_none() {
            if let Some(n) = self.big(Big::Blanks, 3000) {
                for _ in 0..n {
                    self.raw_break();
                }
            }
        }
        let mut n = 0;
        while n < 6 {
            if limit.is_some() || self.src.pct(50) {
                if !self.src.pct(self.cfg.comments) {
                    break;
                }
                let max = limit.map_or(9, |l| l - 1).min(9);
                let k = self.src.range(0, max);
                self.pad(k);
                let t = self.comment_text();
                self.put(&t);
                self.raw_break();
                self.f.comments += 1;
                limit = None;
            } else {
                if !self.src.pct(self.cfg.blanks) {
                    break;
                }
                let k = self.src.count(6, 40);
                self.pad(k);
                self.raw_break();
                self.f.blanks += 1;
            }
            n += 1;
        }
        self.after_block = limit;
    }

    /// White space on the line, at least one character
    fn gap(&mut self, tabs: bool) {
        if tabs && self.src.pct(self.cfg.tabs) {
            self.put("\t");
            return;
        }
        let mut n = 1;
        if self.src.pct(self.cfg.spaces) {
            n += self.src.range(1, 5);
        }
        if tabs {
            n += self.big(Big::Gap, 3000).unwrap_or(0);
        }
        self.pad(n);
    }

    fn opt_gap(&mut self) {
        if self.src.pct(self.cfg.spaces) {
            self.gap(true);
        }
    }

    /// Goes to a new line, indented more than the parent
    fn fresh_line(&mut self, parent: i32) {
        self.end_line();
        let min = (parent + 1) as usize;
        let extra = self.big(Big::Indent, 1000).unwrap_or_else(|| self.src.count(4, 50));
        self.pad(min + extra);
    }

    // ---- names ----

    pub fn anchor_name(&mut self) -> String {
        if let Some(n) = self.big(Big::Anchor, 20000) {
            return "aN0".repeat(n / 3 + 1);
        }
        if self.src.pct(3) {
            let n = self.src.range(20, 200);
            return (0..n).map(|_| *self.src.pick(&['a', 'B', '0', 'z', '9'])).collect();
        }
        let n = self.src.range(1, 4);
        if self.src.pct(40) {
            const ALL: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
            return (0..n * 2).map(|_| *self.src.pick(ALL) as char).collect();
        }
        (0..n).map(|_| *self.src.pick(&['a', 'b', 'c', 'X', 'Z', '0', '9', 'q'])).collect()
    }

    /// A tag as written, and as reported
    pub fn tag(&mut self) -> (String, Tag) {
        if self.src.pct(20) {
            // as in most documents
            let k = *self.src.pick(&KNOWN);
            if self.src.pct(10) {
                let v = format!("tag:yaml.org,2002:{}", k);
                return (format!("!<{}>", v), (String::new(), v));
            }
            let h = if self.src.pct(70) && self.handles.iter().any(|h| h == "!!") { "!!".to_string() } else { self.src.pick(&self.handles).clone() };
            return (format!("{}{}", h, k), (h, k.to_string()));
        }
        if self.src.pct(8) {
            let u = self.uri(true, false);
            return (format!("!<{}>", u.0), (String::new(), u.1));
        }
        if self.src.pct(5) {
            return ("!".into(), ("!".into(), "".into()));
        }
        let h = self.src.below(self.handles.len());
        let h = self.handles[h].clone();
        let (w, v) = self.uri(false, h == "!");
        (format!("{}{}", h, w), (h, v))
    }

    /// URI characters as written and as meant
    pub fn uri(&mut self, full: bool, first_local: bool) -> (String, String) {
        let mut w = String::new();
        let mut v = String::new();
        let n = match self.big(Big::Tag, 8000) {
            Some(n) => n,
            None => 1 + self.src.count(8, 60),
        };
        for i in 0..n {
            match self.src.weighted(&[20, 4, 2]) {
                0 => {
                    const ALL: &[u8] = b"srtxQ70-abcdefghijklmnopquvwyzABCDEFGHIJKLMNOPRSTUVWXYZ12345689";
                    let c = *self.src.pick(ALL) as char;
                    w.push(c);
                    v.push(c);
                }
                1 => {
                    let set: &[char] = if full {
                        &[';', '/', '?', ':', '@', '&', '=', '+', '$', ',', '_', '.', '!', '~', '*', '\'', '(', ')', '[', ']']
                    } else {
                        &[';', '/', '?', ':', '@', '&', '=', '+', '$', '_', '.', '~', '*', '\'', '(', ')']
                    };
                    let mut c = *self.src.pick(set);
                    if first_local && i == 0 {
                        c = 'l';
                    }
                    w.push(c);
                    v.push(c);
                }
                _ => {
                    let c = if self.src.pct(60) {
                        *self.src.pick(&['%', ' ', '!', ',', 'A', 'é', '中', '😀', '\u{7f}', '[', '\0', '\n', '\u{1}', '<', '>'])
                    } else {
                        any_char(self.src)
                    };
                    let mut b = [0; 4];
                    for byte in c.encode_utf8(&mut b).bytes() {
                        if self.src.pct(50) {
                            w.push_str(&format!("%{:02X}", byte));
                        } else {
                            w.push_str(&format!("%{:02x}", byte));
                        }
                    }
                    v.push(c);
                }
            }
        }
        (w, v)
    }

    /// Anchor and tag, maybe: as written in order, and as meant
    fn props(&mut self) -> (Vec<String>, Option<String>, Option<Tag>) {
        if !self.src.pct(self.cfg.props) {
            return (vec![], None, None);
        }
        self.some_props()
    }

    fn some_props(&mut self) -> (Vec<String>, Option<String>, Option<Tag>) {
        let which = self.src.below(4);
        let mut words = vec![];
        let mut anchor = None;
        let mut tag = None;
        if which != 1 {
            let a = self.anchor_name();
            self.anchors.push(a.clone());
            words.push(format!("&{}", a));
            anchor = Some(a);
            self.f.anchors += 1;
        }
        if which != 0 {
            let (w, t) = self.tag();
            if which == 3 {
                words.insert(0, w);
            } else {
                words.push(w);
            }
            tag = Some(t);
            self.f.tags += 1;
        }
        (words, anchor, tag)
    }

    fn scalar_tag(tag: Option<Tag>) -> Option<Tag> {
        tag.filter(|(h, s)| !(h == "!" && s.is_empty()))
    }

    fn alias_name(&mut self) -> String {
        if !self.anchors.is_empty() && !self.src.pct(20) {
            let i = self.src.below(self.anchors.len());
            return self.anchors[i].clone();
        }
        self.anchor_name()
    }

    // ---- scalars ----

    /// One word of plain text
    fn word(&mut self, flow: bool, first: bool, line_start: bool) -> String {
        let mut w = String::new();
        if !first && !line_start && self.src.pct(6) {
            return (*self.src.pick(&["-", "?", "!", "&", "*", "|", ">", "'", "\"", "%", "@", "`", "---", "..."])).into();
        }
        if !first && line_start && !flow && self.src.pct(4) {
            let w = *self.src.pick(&[
                "-", "?", "&b", "*b", "!t", "|", ">", "'q", "\"q", "@", "`", "[", "]", "{", "}", ",", "---", "...", "---x", "...y",
                "--", "..", "----",
            ]);
            return if self.col == 0 && matches!(w, "---" | "...") { "--x".into() } else { w.into() };
        }
        if let Some(n) = self.big(Big::Word, 30000) {
            let unit = *self.src.pick(&["w", "é", "w:x#", "😀", "a-b"]);
            return unit.repeat(n / unit.len() + 1);
        }
        if self.src.pct(40) {
            let s = *self.src.pick(&WORDS);
            if !(flow && s.contains(|c| matches!(c, ',' | '[' | ']' | '{' | '}' | '?'))) {
                return s.into();
            }
        }
        let n = 1 + self.src.count(10, 55);
        for i in 0..n {
            let c = if self.src.pct(self.cfg.unicode) {
                match any_char(self.src) {
                    c if (c as u32) < 0x80 && !c.is_ascii_alphanumeric() => 'P',
                    c => c,
                }
            } else if self.src.pct(80) {
                *self.src.pick(&['a', 'e', 'z', 'K', '5', '0', '_', '.', '/', '(', ')', '=', '+', '$', ';', '^', '<', '~'])
            } else {
                *self.src.pick(&['-', ':', '#', '?', '\'', '"', '%', '&', '*', '!', '|', '>', '@', '`', ',', '[', ']', '{', '}', '\\'])
            };
            if flow && matches!(c, ',' | '[' | ']' | '{' | '}') {
                w.push('f');
                continue;
            }
            if i == 0 {
                match c {
                    // These may start a scalar when something other than white space follows
                    '-' => {
                        w.push(c);
                        w.push('h');
                        continue;
                    }
                    '?' | ':' if !flow => {
                        w.push(c);
                        w.push('h');
                        continue;
                    }
                    '#' | '%' | '?' | ':' => {
                        w.push('i');
                        continue;
                    }
                    ',' | '[' | ']' | '{' | '}' | '&' | '*' | '!' | '|' | '>' | '\'' | '"' | '@' | '`' if first => {
                        w.push('i');
                        continue;
                    }
                    '.' => {
                        w.push_str(".5");
                        continue;
                    }
                    _ => {}
                }
            }
            w.push(c);
            if c == ':' {
                w.push('c');
            }
        }
        w
    }

    /// A plain scalar; returns its content
    pub fn plain(&mut self, flow: bool, single: bool, parent: i32, len: usize) -> String {
        let mut v = String::new();
        let w = self.word(flow, true, self.col == 0);
        self.put(&w);
        v.push_str(&w);
        let n = match self.big(Big::Pieces, 2000) {
            Some(n) => n,
            None => self.src.count(len, 50),
        };
        for _ in 0..n {
            if !single && self.src.pct(self.cfg.multi) {
                self.f.multi += 1;
                let extra = self.big(Big::Folds, 2000).unwrap_or_else(|| self.src.count(3, 25));
                self.fold_break(parent, extra, &mut v, false);
                let ls = self.word(flow, false, true);
                self.put(&ls);
                v.push_str(&ls);
            } else {
                let k = 1 + self.src.count(3, 20);
                for _ in 0..k {
                    let c = self.blank_char();
                    self.putc(c);
                    v.push(c);
                }
                let w = self.word(flow, false, false);
                self.put(&w);
                v.push_str(&w);
            }
        }
        v
    }

    /// A folded line break with `extra` empty lines; the next line is indented enough
    fn fold_break(&mut self, parent: i32, extra: usize, v: &mut String, escaped: bool) {
        if !escaped && self.src.pct(self.cfg.trail) {
            let n = self.src.range(1, 3);
            for _ in 0..n {
                let c = self.blank_char();
                self.putc(c);
            }
        }
        self.raw_break();
        for _ in 0..extra {
            let k = self.src.count(6, 30);
            self.pad(k);
            self.raw_break();
        }
        if escaped || extra > 0 {
            for _ in 0..extra {
                v.push('\n');
            }
        } else {
            v.push(' ');
        }
        let min = (parent + 1) as usize;
        let k = min + self.big(Big::Indent, 1000).unwrap_or_else(|| self.src.count(4, 40));
        self.pad(k);
        if k > 0 && self.src.pct(self.cfg.tabs) {
            self.put("\t");
        }
    }

    /// A single quoted scalar, `len` bounding its pieces
    pub fn single_quoted(&mut self, single: bool, parent: i32, len: usize) -> String {
        self.put("'");
        let mut v = String::new();
        self.quoted_body(&mut v, single, parent, len, false);
        self.put("'");
        v
    }

    pub fn double_quoted(&mut self, single: bool, parent: i32, len: usize) -> String {
        self.put("\"");
        let mut v = String::new();
        self.quoted_body(&mut v, single, parent, len, true);
        self.put("\"");
        v
    }

    fn quoted_body(&mut self, v: &mut String, single: bool, parent: i32, len: usize, double: bool) {
        let n = match self.big(Big::Pieces, 3000) {
            Some(n) => n,
            None => self.src.count(len * 4, 80),
        };
        // White space is content unless a fold follows it: it is written when that is known
        let mut line_start = false;
        for i in 0..n {
            let can_fold = !single;
            match self.src.weighted(&[30, 8, if can_fold { self.cfg.multi } else { 0 }, 10]) {
                // text
                0 => {
                    if let Some(n) = self.big(Big::Word, 30000) {
                        let unit = *self.src.pick(&["w", "é", ": #", "😀", "- "]);
                        let w = format!("{}e", unit.repeat(n / unit.len() + 1));
                        if self.col > 0 {
                            self.put(&w);
                            v.push_str(&w);
                        }
                    }
                    let c = if self.src.pct(self.cfg.unicode) {
                        any_char(self.src)
                    } else if self.src.pct(65) {
                        *self.src.pick(&['a', 'b', 'z', 'N', '0', '7', '_', '.'])
                    } else {
                        *self.src.pick(&[
                            '#', ':', '-', ',', '[', ']', '{', '}', '&', '*', '!', '|', '>', '%', '@', '`', '?', '\'', '"', '\\',
                        ])
                    };
                    match c {
                        '\'' if !double => {
                            self.put("''");
                            v.push('\'');
                        }
                        '"' | '\\' if double => {
                            self.putc('\\');
                            self.putc(c);
                            v.push(c);
                            self.f.escapes += 1;
                        }
                        // A marker at the start of a line would end the document
                        '-' | '.' if self.col == 0 => {
                            let w = *self.src.pick(&["m", "--", "..", "---x", "...x", "-- -", "----", ".. ."]);
                            self.put(w);
                            v.push_str(w);
                            self.put("m");
                            v.push('m');
                        }
                        c => {
                            self.putc(c);
                            v.push(c);
                        }
                    }
                    line_start = false;
                }
                // white space in the line, followed by something
                1 => {
                    if !line_start {
                        let k = 1 + self.src.count(3, 30);
                        for _ in 0..k {
                            let c = self.blank_char();
                            self.putc(c);
                            v.push(c);
                        }
                    }
                    self.put("w");
                    v.push('w');
                    line_start = false;
                }
                // line break
                2 => {
                    self.f.multi += 1;
                    let escaped = double && self.src.pct(30);
                    let extra = self.big(Big::Folds, 2000).unwrap_or_else(|| self.src.count(3, 30));
                    if escaped {
                        if !line_start && self.src.pct(30) {
                            let c = self.blank_char();
                            self.putc(c);
                            v.push(c);
                        }
                        self.put("\\");
                        self.f.escapes += 1;
                    }
                    // Two folds in a row would be one with an empty line: text goes between
                    if line_start && !escaped {
                        self.put("t");
                        v.push('t');
                    }
                    self.fold_break(parent, extra, v, escaped);
                    line_start = true;
                }
                // doubled quote or escape
                _ => {
                    if double {
                        self.escape(v);
                    } else {
                        self.put("''");
                        v.push('\'');
                    }
                    line_start = false;
                }
            }
            let _ = i;
        }
        // White space before the closing quote is content unless a fold came just before it
        if !line_start && self.src.pct(10) {
            let c = self.blank_char();
            self.putc(c);
            v.push(c);
        }
    }

    pub fn escape(&mut self, v: &mut String) {
        self.f.escapes += 1;
        const NAMED: [(&str, char); 19] = [
            ("0", '\0'),
            ("a", '\x07'),
            ("b", '\x08'),
            ("t", '\t'),
            ("\t", '\t'),
            ("n", '\n'),
            ("v", '\x0b'),
            ("f", '\x0c'),
            ("r", '\r'),
            ("e", '\x1b'),
            (" ", ' '),
            ("\"", '"'),
            ("/", '/'),
            ("\\", '\\'),
            ("N", '\u{85}'),
            ("_", '\u{a0}'),
            ("L", '\u{2028}'),
            ("P", '\u{2029}'),
            ("n", '\n'),
        ];
        self.put("\\");
        match self.src.below(4) {
            0 => {
                let (w, c) = *self.src.pick(&NAMED);
                self.put(w);
                v.push(c);
            }
            k => {
                let max = [0, 0xff, 0xffff, 0x10ffff][k];
                let c = loop {
                    let n = match self.src.below(3) {
                        0 => self.src.range(0x20, 0x7e),
                        1 => self.src.range(0, max),
                        _ => *self.src.pick(&[
                            0, 0x0a, 0x0d, 0x22, 0x5c, 0x7f, 0x80, 0x85, 0xa0, 0xff, 0x7ff, 0x800, 0x2028, 0xd7ff, 0xe000,
                            0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0xfffff, 0x100000, 0x10fffe, 0x10ffff,
                        ]),
                    };
                    let n = n.min(max) as u32;
                    if let Some(c) = char::from_u32(n) {
                        break c;
                    }
                    // a surrogate: take its neighbour instead of drawing for ever
                    break '\u{e000}';
                };
                let n = c as u32;
                let upper = self.src.pct(50);
                let s = match (k, upper) {
                    (1, false) => format!("x{:02x}", n),
                    (1, true) => format!("x{:02X}", n),
                    (2, false) => format!("u{:04x}", n),
                    (2, true) => format!("u{:04X}", n),
                    (_, false) => format!("U{:08x}", n),
                    (_, true) => format!("U{:08X}", n),
                };
                self.put(&s);
                v.push(c);
            }
        }
    }

    /// The text of one content line of a block scalar
    fn line_text(&mut self) -> String {
        let mut s = String::new();
        if let Some(n) = self.big(Big::Word, 30000) {
            let unit = *self.src.pick(&["w", "é", ": #", "😀", "- "]);
            return format!("{}e", unit.repeat(n / unit.len() + 1));
        }
        let n = 1 + self.src.count(4, 50);
        for i in 0..n {
            if i > 0 {
                let c = self.blank_char();
                s.push(c);
                if self.src.pct(10) {
                    s.push(' ');
                }
            }
            if self.src.pct(6) {
                s.push_str(self.src.pick(&["---", "...", "--- a", "- b", "? c", "key: v", "# no comment", "%YAML 1.1", "&a", "|", "'", "\""]));
            } else if self.src.pct(50) {
                s.push_str(self.src.pick(&WORDS));
            } else {
                let k = 1 + self.src.count(6, 50);
                for _ in 0..k {
                    let c = if self.src.pct(self.cfg.unicode) {
                        any_char(self.src)
                    } else {
                        *self.src.pick(&[
                            'a', 'z', '#', ':', '-', '?', '[', ']', '{', '}', ',', '&', '*', '!', '|', '>', '\'', '"', '%', '@',
                            '`', '\\', '.', '0',
                        ])
                    };
                    s.push(c);
                }
            }
        }
        s
    }

    /// A block scalar from its header on. Ends at the start of a line.
    pub fn block_scalar(&mut self, folded: bool, parent: i32, len: usize) -> String {
        self.f.block_scalars += 1;
        let base = parent.max(0) as usize;
        let chomp = self.src.below(3); // clip, strip, keep
        let n = match self.big(Big::Pieces, 1500) {
            Some(n) => n,
            None => self.src.count(len * 2 + 1, 65),
        };
        // Lines: None is an empty line, otherwise leading white space and text
        let mut lines: Vec<Option<String>> = vec![];
        for _ in 0..n {
            if self.src.pct(20) {
                lines.push(None);
            } else {
                let mut l = String::new();
                if self.src.pct(18) {
                    let k = self.src.range(1, 4);
                    for j in 0..k {
                        l.push(if self.src.pct(self.cfg.tabs) && j > 0 { '\t' } else { ' ' });
                    }
                }
                if l.is_empty() || !self.src.pct(15) {
                    let t = self.line_text();
                    l.push_str(&t);
                }
                if self.src.pct(8) {
                    let c = self.blank_char();
                    if !(l.is_empty() && c == '\t') {
                        l.push(c);
                    }
                }
                lines.push(Some(l));
            }
        }
        if let Some(n) = self.big(Big::Folds, 3000) {
            let at = self.src.range(0, lines.len());
            lines.splice(at..at, (0..n).map(|_| None));
        }
        let first = lines.iter().flatten().next().cloned();
        // Lines that start with white space need the indentation stated when they come first
        let needs = first.as_ref().map_or(false, |f| f.starts_with(' ') || f.starts_with('\t'));
        let explicit = needs || self.src.pct(15);
        let mut d = 1 + self.big(Big::Indent, 1000).unwrap_or_else(|| self.src.count(8, 45));
        if explicit {
            d = d.min(9);
        }
        let ind = base + d;
        self.put(if folded { ">" } else { "|" });
        let c = ["", "-", "+"][chomp];
        let i = if explicit { d.to_string() } else { String::new() };
        if self.src.pct(50) {
            self.put(c);
            self.put(&i);
        } else {
            self.put(&i);
            self.put(c);
        }
        self.line_tail();
        self.raw_break();
        let trailing = self.big(Big::Trailing, 3000).unwrap_or_else(|| self.src.count(4, 25));
        for _ in 0..trailing {
            lines.push(None);
        }
        let has_text = lines.iter().any(|l| l.is_some());
        // without text, the longest of the empty lines states the indentation: they stay within the parent's
        for l in &lines {
            match l {
                None => {
                    let max = if has_text || explicit { ind } else { base };
                    let k = if self.src.pct(self.cfg.trail) { self.src.range(0, max) } else { 0 };
                    self.pad(k);
                    self.raw_break();
                }
                Some(t) => {
                    self.pad(ind);
                    self.put(t);
                    self.raw_break();
                }
            }
        }
        self.after_block = Some(if has_text || explicit { ind } else { base + 1 });
        block_value(&lines, folded, chomp)
    }

    /// A scalar's text; the caller reports the event. None when it was a block scalar (which ends its own line).
    fn scalar(&mut self, flow: bool, single: bool, parent: i32) -> (Style, String) {
        let mut w = self.cfg.styles;
        if flow || single {
            w[3] = 0;
            w[4] = 0;
            if w[0] + w[1] + w[2] == 0 {
                w[0] = 1;
            }
        }
        let len = self.cfg.scalar_len;
        let pick = self.src.weighted(&w);
        if pick == 1 || pick == 2 {
            let double = pick == 2;
            self.mark(MarkKind::Quoted { end: 0, double, flow });
            let at = self.marks.len() - 1;
            let v = if double { self.double_quoted(single, parent, len) } else { self.single_quoted(single, parent, len) };
            let end = self.out.len();
            self.marks[at].kind = MarkKind::Quoted { end, double, flow };
            return (if double { Style::Double } else { Style::Single }, v);
        }
        match pick {
            0 => (Style::Plain, self.plain(flow, single, parent, len)),
            3 => (Style::Literal, self.block_scalar(false, parent, len)),
            _ => (Style::Folded, self.block_scalar(true, parent, len)),
        }
    }

    fn push_scalar(&mut self, anchor: Option<String>, tag: Option<Tag>, kind: Kind, style: Style, value: String) {
        let tag = Self::scalar_tag(tag);
        self.evs.push(Ev::Scalar { anchor, tag, kind, style, value });
    }

    // ---- nodes in block context ----

    /// A node after an indicator (or at the start of a document)
    pub fn node(&mut self, parent: i32, pos: Pos, kind: Kind, depth: usize) {
        self.left -= 1;
        self.f.depth = self.f.depth.max(depth);
        let spine = self.spine(depth);
        let deep = !spine && (depth >= self.cfg.depth || self.left <= 0);
        let few = if depth == 0 && self.cfg.root_coll { 4 } else { 1 };
        let w = [
            (self.cfg.w_scalar / few).max(1),
            if deep { 0 } else { self.cfg.w_seq },
            if deep { 0 } else { self.cfg.w_map },
            if pos == Pos::Bare && self.cfg.w_alias == 0 { 0 } else { self.cfg.w_alias },
            if pos == Pos::Bare { self.cfg.w_empty / 2 } else { self.cfg.w_empty },
        ];
        let w = if spine { [0, self.cfg.w_seq.max(1), self.cfg.w_map, 0, 0] } else { w };
        match self.src.weighted(&w) {
            0 => {
                let (words, anchor, tag) = self.props();
                self.to_content(parent, pos, &words);
                let (style, value) = self.scalar(false, false, parent);
                self.push_scalar(anchor, tag, kind, style, value);
            }
            w @ (1 | 2) => {
                let (words, anchor, tag) = self.props();
                if self.src.pct(self.cfg.flow) {
                    self.to_content(parent, pos, &words);
                    self.flow_collection(parent, false, w == 2, anchor, tag, kind, depth);
                } else {
                    self.block_collection(parent, pos, words, w == 2, anchor, tag, kind, depth);
                }
            }
            3 => {
                let name = self.alias_name();
                self.to_content(parent, pos, &[]);
                self.put("*");
                self.put(&name);
                self.evs.push(Ev::Alias(name));
                self.f.aliases += 1;
            }
            _ => {
                self.f.empties += 1;
                let (words, anchor, tag) = if pos == Pos::Bare { self.some_props() } else { self.props() };
                if !words.is_empty() {
                    if pos != Pos::Bare {
                        self.gap(true);
                    }
                    self.words(parent, &words, true);
                }
                self.push_scalar(anchor, tag, kind, Style::Plain, String::new());
            }
        }
    }

    /// Writes properties with white space between them
    fn words(&mut self, parent: i32, words: &[String], line_breaks: bool) {
        for (i, w) in words.iter().enumerate() {
            if i > 0 {
                if line_breaks && self.src.pct(8) {
                    self.fresh_line(parent);
                } else {
                    self.gap(true);
                }
            }
            self.put(w);
        }
    }

    /// White space, properties and white space up to the content of a scalar, alias or flow collection
    fn to_content(&mut self, parent: i32, pos: Pos, words: &[String]) {
        if pos == Pos::Bare {
            let k = self.src.count(3, 10);
            self.pad(k);
        } else if self.src.pct(12) {
            self.fresh_line(parent);
        } else {
            self.gap(true);
        }
        if !words.is_empty() {
            self.words(parent, words, true);
            if self.src.pct(12) {
                self.fresh_line(parent);
            } else {
                self.gap(true);
            }
        }
    }

    fn block_collection(
        &mut self,
        parent: i32,
        pos: Pos,
        words: Vec<String>,
        map: bool,
        anchor: Option<String>,
        tag: Option<Tag>,
        kind: Kind,
        depth: usize,
    ) {
        self.f.collections += 1;
        let mut inline = false;
        let m;
        let compact_ok = words.is_empty() && matches!(pos, Pos::Entry | Pos::ExplicitKey | Pos::ExplicitValue);
        if compact_ok && self.src.pct(55) {
            self.gap(false);
            m = self.col;
            inline = true;
            self.f.compact += 1;
        } else {
            if !words.is_empty() {
                if pos == Pos::Bare {
                    let k = self.src.count(2, 10);
                    self.pad(k);
                } else {
                    self.gap(true);
                }
                self.words(parent, &words, false);
            }
            if !(pos == Pos::Bare && words.is_empty()) {
                self.end_line();
            }
            let zero = !map && parent >= 0 && matches!(pos, Pos::Value | Pos::ExplicitValue | Pos::ExplicitKey);
            if zero && self.src.pct(40) {
                m = parent as usize;
                self.f.zero_indent += 1;
            } else {
                m = (parent + 1) as usize + self.big(Big::Indent, 1000).unwrap_or_else(|| self.src.count(5, 45));
            }
        }
        if map {
            self.evs.push(Ev::MapStart { anchor, tag, kind });
            self.block_map(m, parent, inline, depth + 1);
            self.evs.push(Ev::MapEnd);
        } else {
            self.evs.push(Ev::SeqStart { anchor, tag, kind });
            self.block_seq(m, parent, inline, depth + 1);
            self.evs.push(Ev::SeqEnd);
        }
    }

    fn block_seq(&mut self, m: usize, parent: i32, inline: bool, depth: usize) {
        let n = 1 + self.big(Big::Width, 1500).unwrap_or_else(|| self.src.count(self.cfg.width.max(1) - 1, 60));
        for i in 0..n {
            if i > 0 {
                self.end_line();
            }
            if i > 0 || !inline {
                self.mark(MarkKind::Line { first: i == 0, m, parent, map: false });
                self.pad(m);
            }
            self.put("-");
            self.node(m as i32, Pos::Entry, Kind::Entry, depth);
        }
    }

    fn block_map(&mut self, m: usize, parent: i32, inline: bool, depth: usize) {
        let n = 1 + self.big(Big::Width, 1500).unwrap_or_else(|| self.src.count(self.cfg.width.max(1) - 1, 60));
        let mut open = false;
        for i in 0..n {
            if i > 0 {
                self.end_line();
            }
            if i > 0 || !inline {
                self.mark(MarkKind::Line { first: i == 0, m, parent, map: true });
                self.pad(m);
            }
            if self.src.pct(self.cfg.explicit) {
                self.f.explicit += 1;
                self.put("?");
                self.node(m as i32, Pos::ExplicitKey, Kind::Key, depth);
                if self.src.pct(20) {
                    open = true;
                    self.f.empties += 1;
                    self.push_scalar(None, None, Kind::Value, Style::Plain, String::new());
                } else {
                    open = false;
                    self.end_line();
                    self.pad(m);
                    self.put(":");
                    self.node(m as i32, Pos::ExplicitValue, Kind::Value, depth);
                }
            } else {
                // an empty key after an explicit key without a value would be its value
                self.no_blank_key = open;
                let before = self.out.len();
                self.implicit_key(depth);
                open = false;
                let blank = matches!(self.evs.last(), Some(Ev::Scalar { style: Style::Plain, value, .. }) if value.is_empty());
                if self.out.len() > before && !blank {
                    self.mark(MarkKind::Colon { m });
                }
                self.put(":");
                self.node(m as i32, Pos::Value, Kind::Value, depth);
            }
        }
    }

    /// A key on one line, up to its ':'
    fn implicit_key(&mut self, depth: usize) {
        let mark = (self.out.len(), self.evs.len(), self.col);
        self.in_key += 1;
        let space = self.key_content(false, depth);
        if self.out.len() - mark.0 > 900 {
            self.out.truncate(mark.0);
            self.evs.truncate(mark.1);
            self.marks.retain(|m| m.pos < mark.0);
            self.col = mark.2;
            self.put("long");
            self.push_scalar(None, None, Kind::Key, Style::Plain, "long".into());
            self.in_key -= 1;
            return;
        }
        // white space before an empty key's ':' would be indentation
        if space || (self.out.len() > mark.0 && self.src.pct(self.cfg.spaces)) {
            self.gap(true);
        }
        self.in_key -= 1;
    }

    /// Returns whether white space must follow
    fn key_content(&mut self, flow: bool, depth: usize) -> bool {
        let (words, anchor, tag) = self.props();
        let deep = depth >= self.cfg.depth + 1 || self.left <= 0;
        let w = [
            12,
            if deep || self.cfg.flow == 0 { 0 } else { 1 },
            if deep || self.cfg.flow == 0 { 0 } else { 1 },
            if words.is_empty() { self.cfg.w_alias } else { 0 },
            if words.is_empty() && self.no_blank_key { 0 } else { self.cfg.w_empty },
        ];
        self.no_blank_key = false;
        let shape = self.src.weighted(&w);
        self.words(0, &words, false);
        if !words.is_empty() && shape != 4 {
            self.gap(true);
        }
        match shape {
            0 => {
                let (style, value) = self.scalar(flow, true, 0);
                self.push_scalar(anchor, tag, Kind::Key, style, value);
                false
            }
            k @ (1 | 2) => {
                self.f.flow_keys += 1;
                self.flow_collection(0, true, k == 2, anchor, tag, Kind::Key, depth);
                false
            }
            3 => {
                let name = self.alias_name();
                self.put("*");
                self.put(&name);
                self.evs.push(Ev::Alias(name));
                self.f.aliases += 1;
                true
            }
            _ => {
                self.f.empties += 1;
                self.push_scalar(anchor, tag, Kind::Key, Style::Plain, String::new());
                !words.is_empty()
            }
        }
    }

    // ---- flow context ----

    /// White space between flow tokens: maybe none
    fn fsep(&mut self, parent: i32, single: bool, must: bool) {
        if !single && self.src.pct(self.cfg.multi) {
            self.f.multi += 1;
            self.fresh_line(parent);
        } else if must || self.src.pct(self.cfg.spaces + 10) {
            self.gap(true);
        }
    }

    pub fn flow_collection(
        &mut self,
        parent: i32,
        single: bool,
        map: bool,
        anchor: Option<String>,
        tag: Option<Tag>,
        kind: Kind,
        depth: usize,
    ) {
        self.f.collections += 1;
        self.f.flows += 1;
        let n = match self.big(Big::Width, 1500) {
            Some(n) => n,
            None => self.src.count(self.cfg.width, 65),
        };
        let n = if self.in_key == 0 && depth + 1 == self.spine && self.spine < self.cfg.tower { n.max(1) } else { n };
        if map {
            self.evs.push(Ev::MapStart { anchor, tag, kind });
            self.put("{");
        } else {
            self.evs.push(Ev::SeqStart { anchor, tag, kind });
            self.put("[");
        }
        let outer = self.flow_depth == 0;
        self.flow_depth += 1;
        self.mark(MarkKind::FlowOpen { outer });
        for i in 0..n {
            self.fsep(parent, single, false);
            if map {
                self.flow_pair(parent, single, true, depth + 1);
            } else if self.src.pct(12) {
                self.f.pairs += 1;
                self.evs.push(Ev::map(Kind::Entry));
                self.flow_pair(parent, single, false, depth + 1);
                self.evs.push(Ev::MapEnd);
            } else {
                self.flow_node(parent, single, Kind::Entry, depth + 1);
            }
            let at = self.evs.len() - 1;
            let solid = match &self.evs[at] {
                Ev::SeqEnd => true,
                // of a single pair, or of a mapping
                Ev::MapEnd => self.out.ends_with('}'),
                Ev::Scalar { style: Style::Single | Style::Double, .. } => true,
                _ => false,
            };
            self.fsep(parent, single, false);
            if i + 1 < n || self.src.pct(15) {
                self.mark(MarkKind::Comma { solid, last: i + 1 == n });
                self.put(",");
            }
        }
        self.fsep(parent, single, false);
        self.flow_depth -= 1;
        self.mark(MarkKind::FlowClose { outer });
        if map {
            self.put("}");
            self.evs.push(Ev::MapEnd);
        } else {
            self.put("]");
            self.evs.push(Ev::SeqEnd);
        }
    }

    /// A node inside of a flow collection; never nothing at all
    fn flow_node(&mut self, parent: i32, single: bool, kind: Kind, depth: usize) {
        self.left -= 1;
        self.f.depth = self.f.depth.max(depth);
        let spine = self.spine(depth);
        let deep = !spine && (depth >= self.cfg.depth + 1 || self.left <= 0);
        let w = [
            self.cfg.w_scalar.max(1),
            if deep { 0 } else { self.cfg.w_seq },
            if deep { 0 } else { self.cfg.w_map },
            self.cfg.w_alias,
            self.cfg.w_empty.min(1),
        ];
        let w = if spine { [0, self.cfg.w_seq.max(1), self.cfg.w_map, 0, 0] } else { w };
        let shape = self.src.weighted(&w);
        if shape == 3 {
            let name = self.alias_name();
            self.put("*");
            self.put(&name);
            self.evs.push(Ev::Alias(name));
            self.f.aliases += 1;
            return;
        }
        if shape == 4 {
            self.f.empties += 1;
            let (words, anchor, tag) = self.some_props();
            self.words(parent, &words, false);
            // an indicator of the collection may follow at once
            if self.src.pct(70) || words.last().map_or(false, |w| w == "!") {
                self.gap(true);
            }
            self.push_scalar(anchor, tag, kind, Style::Plain, String::new());
            return;
        }
        let (words, anchor, tag) = self.props();
        self.words(parent, &words, !single);
        if !words.is_empty() {
            self.fsep(parent, single, true);
        }
        match shape {
            0 => {
                let (style, value) = self.scalar(true, single, parent);
                self.push_scalar(anchor, tag, kind, style, value);
            }
            k => self.flow_collection(parent, single, k == 2, anchor, tag, kind, depth),
        }
    }

    fn flow_pair(&mut self, parent: i32, single: bool, in_map: bool, depth: usize) {
        if self.src.pct(self.cfg.explicit) {
            self.f.explicit += 1;
            self.put("?");
            if self.cfg.w_empty > 0 && self.src.pct(15) {
                self.f.empties += 1;
                self.push_scalar(None, None, Kind::Key, Style::Plain, String::new());
            } else {
                self.fsep(parent, single, true);
                self.flow_node(parent, single, Kind::Key, depth);
            }
            if self.src.pct(20) {
                self.f.empties += 1;
                self.push_scalar(None, None, Kind::Value, Style::Plain, String::new());
                self.gap(true);
                return;
            }
            self.fsep(parent, single, true);
        } else {
            if in_map && self.cfg.w_empty > 0 && self.src.pct(10) {
                // a key alone
                self.flow_node(parent, single, Kind::Key, depth);
                self.f.empties += 1;
                self.push_scalar(None, None, Kind::Value, Style::Plain, String::new());
                return;
            }
            let mark = (self.out.len(), self.evs.len(), self.col);
            self.in_key += 1;
            let space = self.key_content(true, depth);
            self.in_key -= 1;
            if self.out.len() - mark.0 > 900 {
                self.out.truncate(mark.0);
                self.evs.truncate(mark.1);
                self.marks.retain(|m| m.pos < mark.0);
                self.col = mark.2;
                self.put("long");
                self.push_scalar(None, None, Kind::Key, Style::Plain, "long".into());
            } else {
                let json = self.out.len() > mark.0 && matches!(self.out.as_bytes().last(), Some(b'"' | b'\'' | b']' | b'}'))
                    && matches!(self.evs.last(), Some(Ev::SeqEnd | Ev::MapEnd | Ev::Scalar { style: Style::Double | Style::Single, .. }));
                if space || self.src.pct(self.cfg.spaces) {
                    self.in_key += 1;
                    self.gap(true);
                    self.in_key -= 1;
                } else if json && self.src.pct(30) {
                    // the value may follow at once
                    self.put(":");
                    self.flow_value_adjacent(parent, single, depth);
                    return;
                }
            }
        }
        self.put(":");
        if self.cfg.w_empty > 0 && self.src.pct(10) {
            self.f.empties += 1;
            self.push_scalar(None, None, Kind::Value, Style::Plain, String::new());
            self.opt_gap();
        } else {
            self.fsep(parent, single, true);
            self.flow_node(parent, single, Kind::Value, depth);
        }
    }

    fn flow_value_adjacent(&mut self, parent: i32, single: bool, depth: usize) {
        self.flow_node(parent, single, Kind::Value, depth);
    }

    // ---- documents ----

    /// Directives and the marker that must follow them; returns what the document start reports
    fn directive_gap(&mut self) -> String {
        if !self.src.pct(25) {
            return " ".into();
        }
        let n = self.src.range(1, 4);
        (0..n).map(|_| if self.src.pct(40) { '\t' } else { ' ' }).collect()
    }

    fn directives(&mut self) -> ((u8, u8), BTreeMap<String, String>) {
        let mut version = (1, 2);
        let mut tags = default_tags();
        let mut lines: Vec<String> = vec![];
        self.f.directives += 1;
        if self.src.pct(50) {
            version = match self.src.below(4) {
                0 => (1, 2),
                1 => (1, 1),
                2 => (self.src.below(256) as u8, self.src.below(256) as u8),
                _ => *self.src.pick(&[(0, 0), (255, 255), (1, 10), (10, 1), (2, 0)]),
            };
            let g = self.directive_gap();
            lines.push(format!("%YAML{}{}.{}", g, version.0, version.1));
        }
        let n = self.src.count(3, 50);
        let mut seen: Vec<String> = vec![];
        for _ in 0..n {
            let h = match self.src.below(4) {
                0 => "!!".to_string(),
                1 => "!".to_string(),
                _ => {
                    let k = self.src.range(1, 3);
                    let s: String = (0..k).map(|_| *self.src.pick(&['a', 'n', 'Z', '0', '9'])).collect();
                    format!("!{}!", s)
                }
            };
            if seen.contains(&h) {
                continue;
            }
            seen.push(h.clone());
            let (w, v) = match self.src.below(3) {
                0 => ("tag:example.com,2000:app/".to_string(), "tag:example.com,2000:app/".to_string()),
                1 => {
                    let (w, v) = self.uri(true, false);
                    // a prefix may start with '!' or a character that is no flow indicator
                    (format!("!{}", w), format!("!{}", v))
                }
                _ => {
                    let (w, v) = self.uri(true, false);
                    (format!("x{}", w), format!("x{}", v))
                }
            };
            let (g1, g2) = (self.directive_gap(), self.directive_gap());
            lines.push(format!("%TAG{}{}{}{}", g1, h, g2, w));
            tags.insert(h, v);
        }
        if lines.is_empty() {
            lines.push("%YAML 1.2".into());
        }
        let k = self.src.below(lines.len());
        lines.rotate_left(k);
        for l in lines {
            self.put(&l);
            self.end_line();
        }
        (version, tags)
    }

    /// One document; `bare` tells whether it may start without '---'. Returns whether it ended with '...'.
    pub fn document(&mut self, bare: bool, last: bool) -> bool {
        self.f.docs += 1;
        self.left = self.cfg.budget;
        self.anchors.clear();
        self.filler();
        let mut version = (1, 2);
        let mut tags = default_tags();
        let directives = (bare || self.after_nothing) && self.src.pct(self.cfg.directives);
        self.after_nothing = false;
        if directives {
            let (v, t) = self.directives();
            version = v;
            tags = t;
        }
        self.handles = tags.keys().cloned().collect();
        let implicit = bare && !directives && !self.src.pct(30);
        self.evs.push(Ev::DocStart { version, tags, implicit });
        if implicit {
            self.node(-1, Pos::Bare, Kind::Root, 0);
        } else {
            self.put("---");
            if self.src.pct(8) {
                // nothing at all: even directives may follow without '...'
                self.after_nothing = true;
            } else if self.cfg.w_empty > 0 && self.src.pct(3 * self.cfg.w_empty.min(8)) {
                self.f.empties += 1;
                let (words, anchor, tag) = self.some_props();
                if self.src.pct(20) {
                    self.end_line();
                } else {
                    self.gap(true);
                }
                self.words(-1, &words, true);
                self.push_scalar(anchor, tag, Kind::Root, Style::Plain, String::new());
            } else {
                let w = self.cfg.w_empty;
                // a root that is written
                self.cfg.w_empty = 0;
                let pos = if self.src.pct(50) { Pos::Marker } else { Pos::Bare };
                if pos == Pos::Bare {
                    self.end_line();
                }
                self.node_keep_empty(w, pos);
            }
        }
        if !self.bol {
            self.end_line_or_eof(last);
        } else if !last {
            self.filler();
        }
        let explicit_end = self.src.pct(25);
        if explicit_end {
            if !self.bol {
                self.raw_break();
            }
            self.put("...");
            if self.src.pct(50) || !last {
                self.end_line();
            }
            if self.src.pct(6) {
                // more than once
                for _ in 0..*self.src.pick(&[1, 1, 2, 3, 9]) {
                    if !self.bol {
                        self.raw_break();
                    }
                    self.put("...");
                    self.end_line();
                }
            }
        }
        self.evs.push(Ev::DocEnd { implicit: !explicit_end });
        explicit_end
    }

    fn node_keep_empty(&mut self, w: usize, pos: Pos) {
        // w_empty is 0 only for the root itself: restored by the first nested node through this counter
        let saved = self.cfg.w_empty;
        self.cfg.w_empty = saved;
        let deep = self.left <= 1;
        let few = if self.cfg.root_coll { 4 } else { 1 };
        let shape = self.src.weighted(&[(self.cfg.w_scalar / few).max(1), if deep { 0 } else { self.cfg.w_seq + self.cfg.w_map }]);
        self.cfg.w_empty = w;
        self.left -= 1;
        if shape == 0 {
            let (words, anchor, tag) = self.props();
            self.to_content(-1, pos, &words);
            let (style, value) = self.scalar(false, false, -1);
            self.push_scalar(anchor, tag, Kind::Root, style, value);
        } else {
            let map = self.src.pct(50);
            let (words, anchor, tag) = self.props();
            if self.src.pct(self.cfg.flow) {
                self.to_content(-1, pos, &words);
                self.flow_collection(-1, false, map, anchor, tag, Kind::Root, 0);
            } else {
                self.block_collection(-1, pos, words, map, anchor, tag, Kind::Root, 0);
            }
        }
    }

    fn end_line_or_eof(&mut self, last: bool) {
        if last && self.src.pct(40) {
            match self.src.below(4) {
                2 => self.gap(true),
                3 => {
                    self.put(" ");
                    let t = self.comment_text();
                    self.put(&t);
                }
                _ => {}
            }
            return;
        }
        self.end_line();
    }

    /// A whole stream
    pub fn stream(&mut self) {
        self.evs.push(Ev::StreamStart);
        let n = 1 + self.src.count(self.cfg.docs.max(1) - 1, 40);
        let mut bare = true;
        for i in 0..n {
            bare = self.document(bare, i + 1 == n);
        }
        self.evs.push(Ev::StreamEnd);
    }
}

/// The content of a block scalar, from its lines (None: empty) by YAML 1.2's rules
pub fn block_value(lines: &[Option<String>], folded: bool, chomp: usize) -> String {
    let last = match lines.iter().rposition(|l| l.is_some()) {
        Some(i) => i,
        None => return if chomp == 2 { "\n".repeat(lines.len()) } else { String::new() },
    };
    let spaced = |s: &str| s.starts_with(' ') || s.starts_with('\t');
    let mut v = String::new();
    let mut prev: Option<&str> = None;
    let mut empties = 0;
    for l in &lines[..=last] {
        match l {
            None => empties += 1,
            Some(t) => {
                match prev {
                    None => v.push_str(&"\n".repeat(empties)),
                    Some(p) => {
                        if !folded || spaced(p) || spaced(t) {
                            v.push_str(&"\n".repeat(empties + 1));
                        } else if empties == 0 {
                            v.push(' ');
                        } else {
                            v.push_str(&"\n".repeat(empties));
                        }
                    }
                }
                v.push_str(t);
                prev = Some(t);
                empties = 0;
            }
        }
    }
    match chomp {
        0 => v.push('\n'),
        1 => {}
        _ => v.push_str(&"\n".repeat(lines.len() - last)),
    }
    v
}

//! The checks, by property.

use crate::engine::{Prop, Src};
use crate::ev::*;
use crate::gen::*;
use crate::p_any::*;
use crate::p_err::c29;
use crate::p_misc::*;
use crate::p_struct::*;
use crate::p_time::c31;
use crate::p_val::c30;

pub fn show(seed: u64) {
    let mut src = Src::random(seed);
    let mut g = Gen::new(&mut src, Cfg::default());
    g.stream();
    println!("{}", g.out);
    println!("{}", compact(&g.evs));
}

static ASSUME: &[&str] = &[
    "the generators' dialect is that of DESIGN.md: forms yary does not claim to support (a byte order mark, non-ASCII anchor names, and so on) are not generated as valid",
    "exploration: the property is shown for the generated cases only",
];

const fn p(id: &'static str, run: crate::engine::PropFn, quick: u64, thorough: u64, rule: &'static str) -> Prop {
    Prop { id, run, quick, thorough, rule, assumptions: ASSUME }
}

pub static PROPS: &[Prop] = &[
    p(
        "C01",
        c01,
        1200000,
        72000000,
        "Mutated generator output, fragment soup, token soup and random characters, 15% with bytes replaced by arbitrary ones and 10% moved across the end of a read buffer; each is run through the byte reader, a random reader and a randomly chunked source in random scalar modes, polling on after the end. Non-trivial: more than 3 bytes.",
    ),
    p(
        "C02",
        c02,
        2000000,
        120000000,
        "Mutated generator output, fragment soup and random characters, checked against an automaton of the documented event grammar with node roles, eager and lazy, through a random reader. Non-trivial: more than 5 events were produced.",
    ),
    p(
        "C03",
        c03,
        110000,
        6600000,
        "Valid and malformed texts, half of them placed so that they straddle a read buffer's end, some of several buffers, some with one token as long as a buffer; compared between str, byte slice, an all-at-once source, a randomly chunked and a 1-2 byte interrupted source. Non-trivial: more than 5 events, or more than 2 before an error.",
    ),
    p(
        "C04",
        c04,
        1600000,
        96000000,
        "Generated and mutated texts run eager and in two of four lazy evaluation orders through random readers, and documents with exactly one scalar of faulty content. Non-trivial: more than one scalar, or a faulty one.",
    ),
    p(
        "C05",
        c05,
        800000,
        48000000,
        "A random stream written by the structured generator together with the events it stands for, weighted to block collections in all layouts. Non-trivial: at least two block collections.",
    ),
    p(
        "C06",
        c06,
        1200000,
        72000000,
        "A random stream written by the structured generator together with the events it stands for, weighted to flow collections in all spellings. Non-trivial: at least two flow collections.",
    ),
    p(
        "C07",
        c07,
        1300000,
        78000000,
        "A random stream written by the structured generator together with the events it stands for, in which many nodes are omitted. Non-trivial: at least two omitted nodes.",
    ),
    p(
        "C08",
        c08,
        2500000,
        150000000,
        "A double quoted scalar built piecewise (characters, every escape form, escaped and folded breaks, faulty escapes) with its expected content, placed in one of many block and flow contexts or in a generated stream. Non-trivial: more than 3 characters of text, or a faulty escape.",
    ),
    p(
        "C09",
        c09,
        2200000,
        132000000,
        "A single quoted scalar built piecewise with its expected content, placed in one of many block and flow contexts or in a generated stream. Non-trivial: more than 3 characters of text.",
    ),
    p(
        "C10",
        c10,
        2000000,
        120000000,
        "A plain scalar built piecewise (all characters YAML allows, inner indicators, folded lines) with its expected content, followed by each kind of legal construct, in one of many contexts or in a generated stream. Non-trivial: more than 3 characters of text.",
    ),
    p(
        "C11",
        c11,
        2000000,
        120000000,
        "A literal or folded block scalar of random line classes with the content a separate line based reference model gives, in random contexts and nesting. Non-trivial: more than one line.",
    ),
    p(
        "C12",
        c12,
        1800000,
        108000000,
        "A block scalar header (chomping, indentation digit, order, comment) with a random body and continuation, with the content a separate line based reference model gives. Non-trivial: more than one line.",
    ),
    p(
        "C13",
        c13,
        1500000,
        90000000,
        "A random stream of documents with any choice of markers, comments and empty documents, written with its events, and streams without content. Non-trivial: more than one document, or no content but some text.",
    ),
    p(
        "C14",
        c14,
        1400000,
        84000000,
        "A random stream of documents with any directives, written with its events, and documents with repeated or dangling directives. Non-trivial: at least one directive.",
    ),
    p(
        "C15",
        c15,
        1400000,
        84000000,
        "A random stream written by the structured generator together with the events it stands for, with tags of every form on every node, and documents using undeclared handles. Non-trivial: at least one tag.",
    ),
    p(
        "C16",
        c16,
        1100000,
        66000000,
        "A random stream written by the structured generator together with the events it stands for, with anchors and aliases of any name on every node. Non-trivial: at least one anchor or alias.",
    ),
    p(
        "C17",
        c17,
        1100000,
        66000000,
        "The same tree written twice with different comments, blank lines and spaces, and comment or white space insertions at places known to be insignificant. Non-trivial: the two texts differ.",
    ),
    p(
        "C18",
        c18,
        1200000,
        72000000,
        "A generated stream with every line break rewritten to a random one of six forms. Non-trivial: more than two breaks.",
    ),
    p(
        "C19",
        c19,
        800000,
        48000000,
        "Two to seven texts (generated, mutated or soup), each run alone, then concatenated with document markers, the last one possibly malformed; the events must be those of each in turn. Non-trivial: at least two documents were joined.",
    ),
    p(
        "C20",
        c20,
        1600000,
        96000000,
        "A fault (layout, directive, node, header, cut off input, or a mutation of a recorded mark: bracket swapped, doubled, removed, comma added or missing, entry dedented, tab in indentation, key broken from its ':', node exchanged) in a generated stream. Non-trivial: a fault was placed.",
    ),
    p(
        "C21",
        c21,
        160000,
        9600000,
        "A text, chunk schedule and position at which the source fails with a random io::ErrorKind and payload. Non-trivial: at least two events came before the error.",
    ),
    p(
        "C22",
        c22,
        500000,
        30000000,
        "A text with an ill formed byte sequence at a random place (or none) under a random chunk schedule. Non-trivial: a sequence was placed, or the valid text is not ASCII.",
    ),
    p(
        "C23",
        c23,
        500000,
        30000000,
        "Generated and mutated texts; positions compared between all readers, chunkings and modes and checked for range and order. Non-trivial: more than 5 events.",
    ),
    p(
        "C24",
        c24,
        200000,
        12000000,
        "Generated texts of up to several buffers; events are kept, cloned, evaluated and dropped in random orders during and after reading; and texts of scalars that need no rewriting, whose places in the source are known. Non-trivial: more than 6 events, or more than 2 scalars of known place.",
    ),
    p(
        "C25",
        c25,
        1500000,
        90000000,
        "Any text driven through a random history of iter, next, into_iter, into_inner and reader reuse, compared with one uninterrupted iteration. Non-trivial: more than 6 events.",
    ),
    p(
        "C26",
        c26,
        450000,
        27000000,
        "A key of a random form and length around 1024 bytes (or far beyond) in one of ten contexts, implicit or explicit, or the same text as a value. Non-trivial: longer than 900 bytes.",
    ),
    p(
        "C27",
        c27,
        8000,
        480000,
        "One dimension (depth, entries, documents, scalar, escapes, comment, name, white space, blanks, directives, one detail of a generated stream, or a generated unit repeated to 70,000 lines) scaled far up, with its events. Non-trivial: a case was built (no unit to repeat was found otherwise).",
    ),
    p(
        "C28",
        c28,
        300000,
        18000000,
        "A text (generated, mutated, spliced, of several buffers, not UTF-8, from a failing source) and a script of keeping, cloning, evaluating, dropping and giving up, after which the count of bytes held must be what it was and the source dropped once; or a repeated unit or one long detail, measured at two sizes. Non-trivial: more than 20 bytes of text.",
    ),
    p(
        "C29",
        c29,
        1200000,
        72000000,
        "Any text (alone, or with a complete document after it), a fault of a table amid well formed documents, a stream cut inside a quoted scalar, bytes that are not UTF-8, or a failing source; its error is asked for everything it can tell and converted, through several readers, eager and lazy. Non-trivial: there was an error.",
    ),
    p(
        "C30",
        c30,
        700000,
        42000000,
        "Any text's events, obtained in two ways (string or byte source, eager or evaluated later, printed in between): compared with each other, in pairs and with ready made constants, accessed in all ways, cloned and changed at random, next to a model of each. Non-trivial: more than 6 events.",
    ),
    p(
        "C31",
        c31,
        1500,
        60000,
        "A generated unit repeated, one token or one kind of token repeated, of 30-90 kB and of eight times that; the processor time of both is measured (the best of several, if it does not fit at once). Non-trivial: a case was built.",
    ),
];

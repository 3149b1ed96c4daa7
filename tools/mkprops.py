#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements stay easy to review)."""
import json, os
E='src/event/parser/mod.rs'; S='src/scanner/mod.rs'
def p(id,title,stmt,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=observe or ["the events, scalar contents and errors returned by the public event iterator"]
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    return {"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a}
P=[]
P.append(p("C01","Any input is processed to an end, without panic, hang or runaway output",
 "For every text or byte sequence, through every reader and with scalars processed eagerly or lazily, iterating over the events, evaluating every scalar and polling again after the end or after an error never panics and always returns. The number of events is bounded by a small multiple of the input's length, and iteration ends with either the stream end event or one error, after which nothing more is returned.",
 ["inputs","configurations"],"all byte strings (valid UTF-8 or not, valid YAML or not) x {str, bytes, io::Read with any chunking} x {eager, lazy}",
 "The tests feed some 600 hand written snippets; the code slices strings by hand maintained offsets and holds debug assertions and unreachable arms that only an unsampled input reaches.",
 [S,"src/scanner/macros.rs","src/scanner/scalar/block.rs","src/scanner/scalar/flow.rs","src/scanner/scalar/plain.rs","src/scanner/scalar/escape.rs",E,"src/reader/owned.rs"],
 [("every scan step consumes input, queues a token or fails","src/scanner/mod.rs scan_tokens/scan_next_token"),("state machine produces an event or changes state on every step","src/event/parser/mod.rs get_next_event")]))
P.append(p("C02","Event streams always follow the documented grammar, with correct node roles",
 "For every input the produced events are a prefix of a sentence of the documented event grammar (one stream start first, documents of at most one node, balanced collections, mappings of key and value pairs, one stream end last), and a complete sentence exactly when no error is reported. Every node's kind hint states its real role (document root, sequence entry, mapping key or mapping value), and nothing follows the stream end.",
 ["inputs"],"all texts, valid or malformed, in both scalar modes",
 "Tests compare whole event lists for chosen documents; that no other text can produce an ungrammatical stream or a wrong role is a statement about every path of the parser's state machine.",
 [E,"src/event/state.rs","src/event/types.rs","src/event/mod.rs"],[("parser state stack","src/event/state.rs StateMachine"),("kind passed to node()","src/event/parser/mod.rs")]))
P.append(p("C03","All readers and all ways of chunking a byte source give the same events",
 "Reading the same UTF-8 content from a string, from a byte slice or from any byte source that returns it in pieces of any size (also when a piece ends inside a character, a line break, an indicator or a long scalar, or when the source is interrupted) gives the same events in the same order, or the same kind of error after the same events.",
 ["inputs","schedules","configurations"],"all valid UTF-8 inputs x all partitions into read() results, including inputs longer than any internal buffer",
 "The chunk schedule is a second, unbounded dimension; the unit tests drive a str reader in a handful of fixed slices and never the io::Read reader over buffer boundaries.",
 ["src/reader/mod.rs","src/reader/borrow.rs","src/reader/owned.rs",S,"src/scanner/macros.rs"],[("request for more input when a decision would depend on it","src/scanner/macros.rs cache!, src/scanner/error.rs Extend"),("append only storage of chunks","src/reader/owned.rs")]))
P.append(p("C04","Lazy processing agrees with eager processing",
 "For every input that eager processing accepts, lazy processing produces the same events, and evaluating its deferred scalars (by value, by reference or on a clone, in any order, at any later time) gives the same contents and styles. An input that eager processing rejects is never accepted by lazy processing plus evaluation of every scalar; a scalar whose only fault is in its content fails on evaluation with the same error category, leaving an empty evaluated scalar when evaluated by reference.",
 ["inputs","histories"],"all texts x all evaluation orders and entry points",
 "Eager and lazy scanning are separate code paths that find the end of each scalar independently; tests compare them on single short scalars only.",
 ["src/scanner/entry.rs","src/scanner/scalar/flow.rs","src/scanner/scalar/block.rs","src/scanner/scalar/plain.rs","src/event/types.rs"],[("deferred scalar tokens","src/scanner/entry.rs Lazy"),("lazy end-of-scalar search","src/scanner/scalar/*.rs scan_*_lazy")]))
P.append(p("C05","Block collections are reported with the structure they were written with",
 "For every nesting of block sequences and block mappings, however it is laid out (any consistent indentation, sequences at their parent key's indentation, compact collections on an entry's or key's line, implicit or explicit keys, comments and blank lines between lines), the events are exactly the collections, entries, keys and values that were written, in order, with their properties, ended where their indentation ends.",
 ["inputs","programs"],"all trees of block collections with scalar, alias and flow leaves x all layouts of each tree",
 "Nesting and layout combine without bound; the tests hold a few dozen fixed layouts of depth two or three.",
 [S,"src/scanner/context.rs","src/scanner/key.rs",E],[("indentation stack","src/scanner/context.rs"),("implicit key bookkeeping","src/scanner/key.rs"),("token insertion before a discovered key","src/queue.rs")]))
P.append(p("C06","Flow collections are reported with the structure they were written with",
 "For every nesting of flow sequences and mappings (single line or spread over lines with comments, with or without trailing commas, single pair mappings inside sequences, explicit keys, values adjacent to quoted or bracketed keys, used as keys, entries or values of block collections), the events are exactly the collections, entries, keys and values that were written, in order, with their properties.",
 ["inputs","programs"],"all trees of flow collections x all spacings and spellings of each tree, inside any block context",
 "Tests hold fixed flow snippets of small depth; the interplay of nested flow levels, pair spellings and surrounding block context is unbounded.",
 [S,"src/scanner/context.rs","src/scanner/key.rs",E],[("flow level counter","src/scanner/context.rs"),("flow states","src/event/parser/mod.rs flow_*")]))
P.append(p("C07","Omitted keys, values and entries are reported as empty scalars in their place",
 "Wherever the text implies a node without writing it (a sequence entry with nothing after its indicator, a key without a value, a value without a key, an explicit key indicator alone, a flow pair missing either side, a node that has only an anchor or a tag) exactly one empty plain scalar with the right role and properties is reported at that place, and neighbouring nodes are unaffected.",
 ["inputs","programs"],"all block and flow trees in which any subset of the nodes is omitted",
 "Each place where a node can be implied is decided by a different lookahead in the parser; tests cover them one at a time and not next to each other, nested, or with properties.",
 [E,S],[("empty_scalar and implied token checks","src/event/parser/mod.rs")]))
P.append(p("C08","Double quoted scalars decode exactly",
 "A double quoted scalar's content is its text with every supported escape (\\0 \\a \\b \\t \\n \\v \\f \\r \\e \\space \\\" \\/ \\\\ \\N \\_ \\L \\P \\xHH \\uHHHH \\UHHHHHHHH) replaced by the character it names, escaped line breaks removed, and unescaped line breaks folded (surrounding white space dropped, one break to a space, n breaks to n-1 line feeds). Escapes that are unknown, cut short or do not name a character are errors, and the style is reported as double quoted.",
 ["inputs"],"all texts between double quotes, of any length, in block and flow context, as value, entry or key",
 "About 1.1 million code points, a dozen and a half escapes and line folding interact; tests hold around forty literals.",
 ["src/scanner/scalar/flow.rs","src/scanner/scalar/escape.rs"],[("escape table","src/scanner/scalar/escape.rs flow_unescape"),("line folding","src/scanner/scalar/flow.rs")]))
P.append(p("C09","Single quoted scalars decode exactly",
 "A single quoted scalar's content is its text with each doubled quote replaced by one quote and line breaks folded (surrounding white space dropped, one break to a space, n breaks to n-1 line feeds); nothing else is changed, backslashes and indicators included. The style is reported as single quoted.",
 ["inputs"],"all texts between single quotes, of any length, in block and flow context, as value, entry or key",
 "The content is arbitrary text; tests hold a dozen literals.",
 ["src/scanner/scalar/flow.rs"],[("scan of quoted scalars","src/scanner/scalar/flow.rs")]))
P.append(p("C10","Plain scalars decode exactly and end exactly where they should",
 "A plain scalar's content is its text without surrounding white space, with the line breaks of a multi-line scalar folded; inner ':' and '#' that are not indicators by YAML's rules, quotes, and non-ASCII characters are kept. It ends before ': ', ' #', a flow indicator inside a flow collection, a line indented no deeper than its parent, or a document marker, and nothing of what follows is swallowed or lost.",
 ["inputs"],"all plain texts, single and multi-line, at any indentation, in block and flow context, followed by any legal construct",
 "Where a plain scalar ends depends on the following characters and lines in every context; the tests sample about thirty texts.",
 ["src/scanner/scalar/plain.rs",S],[("terminator tests and fold","src/scanner/scalar/plain.rs")]))
P.append(p("C11","Literal and folded block scalars keep and fold lines exactly",
 "The content of a literal scalar is its lines without their indentation, every line break kept; that of a folded scalar joins adjacent unindented text lines (one break to a space, n breaks to n-1 line feeds) and keeps the breaks around more indented or white space started lines. Leading empty lines are kept, the scalar ends at the first less indented text line, document marker or end of input, and what follows is unaffected.",
 ["inputs"],"all sequences of content lines (any characters, leading and trailing white space, empty lines) at any nesting and indentation",
 "Line classes (empty, blank, indented, text) interact pairwise with position, indentation and context; tests hold around twenty bodies.",
 ["src/scanner/scalar/block.rs"],[("line scanning and folding","src/scanner/scalar/block.rs")]))
P.append(p("C12","Chomping and indentation indicators of block scalars are obeyed",
 "With '-' a block scalar ends without a line break, with no indicator in exactly one if its text was followed by one and is not empty, with '+' in all that were written. The content's indentation is that of its first non-empty line or, with an indicator digit 1 to 9, the parent's indentation plus that digit (so that further leading spaces are content), whichever order the two indicators have and whether or not a comment follows the header.",
 ["inputs"],"all headers x all bodies with any number of leading and trailing blank lines x any nesting x end of input, dedent, comment or document marker following",
 "The number of trailing breaks, indentations and what follows multiply; the tests sample a few of each.",
 ["src/scanner/scalar/block.rs"],[("header scan and chomping","src/scanner/scalar/block.rs scan_chomp")]))
P.append(p("C13","Document boundaries and their explicitness are reported exactly",
 "A stream is split into documents exactly at its '---' and '...' lines: every document that was written, empty ones included, is reported once, in order, with its own content, its start marked explicit exactly when written with '---' and its end marked explicit exactly when written with '...'. A stream without any content is one implicit empty document, and markers inside scalars or not alone at the start of a line are content.",
 ["inputs","histories"],"all sequences of documents of any content x all choices of markers, repeated end markers, comments and blank lines between them",
 "What one document leaves behind affects the next; the tests check at most two or three short documents in a row.",
 [E,S],[("document states","src/event/parser/mod.rs document_start/document_end"),("marker recognition and unrolling","src/scanner/mod.rs fetch_document_marker")]))
P.append(p("C14","Directives apply to their own document only, over fresh defaults",
 "Each document start carries the version its own %YAML directive stated (1.2 if none) and the tag prefixes its own %TAG directives stated, merged over the defaults for '!' and '!!' which they may replace; nothing carries over to other documents. Two %YAML, or two %TAG for one handle, in one document, version numbers above 255, and directives without '---', are errors.",
 ["inputs","histories"],"all sequences of documents with any directives before each",
 "Leakage between documents shows only over histories of documents; tests check directives of a single document.",
 [E,"src/scanner/directive.rs","src/scanner/tag.rs"],[("scan_document_directives","src/event/parser/mod.rs"),("scan_directive","src/scanner/directive.rs")]))
P.append(p("C15","Tags are reported on the node they precede, decoded, and must be declared",
 "A node's tag is reported on exactly that node (scalar, empty node or collection, block or flow, with or without an anchor in either order) as the handle and the percent-decoded suffix that were written, with an empty handle for a verbatim tag. A tag is accepted exactly when its handle is one of the document's tag prefixes, so use of an undeclared handle is an error, and the non-specific tag '!' is not reported on scalars.",
 ["inputs","histories"],"all handles and suffixes on all node positions, in documents with any set of declared handles",
 "Handle, suffix spelling, node position, anchor order and declared set multiply; tests hold some twenty tags.",
 ["src/scanner/tag.rs",E],[("scan_node_tag","src/scanner/tag.rs"),("validate_tag","src/event/parser/mod.rs")]))
P.append(p("C16","Anchors and aliases are reported with their exact names at their place",
 "An anchor is reported with its exact name on exactly the node it was written before (scalar, empty node, block or flow collection, key, value, entry or root, with or without a tag in either order), and an alias as an alias event with its exact name in the position of a node; no other node gets an anchor.",
 ["inputs"],"all anchor names over the accepted alphabet, of any length, on all node positions in any tree",
 "To which node a property belongs depends on line breaks, keys and nesting around it; tests check a few positions.",
 ["src/scanner/anchor.rs",E,S],[("scan_anchor","src/scanner/anchor.rs"),("fetch_anchor","src/event/parser/mod.rs"),("key possible before properties","src/scanner/key.rs")]))
P.append(p("C17","Comments and insignificant white space never change the events",
 "Adding comments (whole line at any column or after white space at a line's end), blank lines, trailing white space and extra separation spaces wherever YAML allows them leaves the events exactly as they were, whatever characters the comments hold.",
 ["inputs"],"all valid documents x all sets of insertions at legal places",
 "A relation between pairs of inputs over every legal place of insertion; the tests include a few comments at fixed places.",
 [S,"src/scanner/macros.rs","src/scanner/scalar/plain.rs","src/scanner/scalar/block.rs"],[("eat_whitespace","src/scanner/mod.rs"),("eat_comments","src/scanner/scalar/*.rs, src/scanner/directive.rs")]))
P.append(p("C18","All line break forms are equivalent",
 "Writing any line break of a document as LF, CR LF, CR, NEL, LS or PS, mixed in any way, gives the same events with the same scalar contents, every break that is kept as content being reported as a single line feed.",
 ["inputs"],"all valid documents x all assignments of break forms to their line breaks",
 "A relation over every combination of break forms at every place, including read boundaries; tests use LF and a few CR LF.",
 ["src/scanner/macros.rs",S,"src/scanner/scalar/block.rs","src/scanner/scalar/flow.rs","src/scanner/scalar/plain.rs"],[("isBreak!/advance! macros","src/scanner/macros.rs")]))
P.append(p("C19","Every document of a stream is processed as if it stood alone",
 "For documents that are each valid alone, their concatenation with document markers yields exactly the events of each document in turn; and an error in one document never alters the events of the documents before it.",
 ["inputs","histories"],"all finite sequences of valid documents, optionally followed by a malformed one",
 "State left behind (indentation, flow level, possible keys, directives, counters) shows only over histories; tests concatenate two tiny documents at most.",
 [S,E,"src/scanner/context.rs"],[("unroll at markers","src/scanner/mod.rs fetch_document_marker"),("directive reset","src/event/parser/mod.rs document_start")],
 state=[("scanner context","indentation stack, flow level, possible keys","src/scanner/context.rs, src/scanner/key.rs"),("parser state","stack and active directives","src/event/parser/mod.rs")]))
P.append(p("C20","Malformed documents are rejected with the right kind of error",
 "Text that breaks one of these rules of YAML anywhere in an otherwise valid stream never reaches the stream end without an error: quoted scalars and flow collections must be closed and brackets matched and separated by commas, block entries must line up with an enclosing collection, tabs must not be in the indentation of a line that starts a block entry or key, implicit keys need their ':' on the same line, a document holds one root node, '@', '`' and unquoted '%' start no scalar, the blank lines ahead of a block scalar's text are not longer than its indentation, directives, tags, anchors and block scalar headers must be well formed. The events reported before the error agree with those of the valid text before the fault (they may lag behind it), and the error is classified as a syntax, data or end of input error, never as an I/O error.",
 ["inputs","fault_sequences"],"all valid documents x one fault of each listed class at any applicable place",
 "Each class can be injected at unboundedly many places and nestings; the tests check about twenty malformed snippets, most only for a specific error code.",
 [S,"src/scanner/error.rs",E,"src/event/error.rs","src/error.rs"],[("ScanError / ParseError returns","src/scanner/*.rs, src/event/parser/mod.rs")]))
P.append(p("C21","A failing byte source is reported as its own error, after the events before it",
 "When the byte source fails, the events produced before the error are a prefix of those of the fault free run, the error is of the I/O category, and converting it to an io::Error gives back the original error with its kind and payload. Interruptions are retried transparently, and no fault is ever turned into a clean end of the stream.",
 ["fault_sequences","inputs"],"all inputs x all positions of a failing read x all io error kinds x all chunk schedules",
 "Where the failure falls relative to tokens and chunks is unbounded; the tests have no failing source.",
 ["src/reader/owned.rs","src/reader/error.rs","src/error.rs"],[("read loop and error conversion","src/reader/owned.rs"),("From<Error> for io::Error","src/error.rs")]))
P.append(p("C22","Invalid UTF-8 is always reported and never alters events",
 "Byte input that is not valid UTF-8 is rejected by the byte slice reader at once, and by a byte source reader with a data error after events that are a prefix of those of the valid text before the fault, wherever the invalid or incomplete bytes fall; valid UTF-8 is never rejected as invalid however it is split.",
 ["inputs","fault_sequences","schedules"],"all byte strings with an ill formed sequence (overlong, surrogate, out of range, stray or missing continuation, cut at the end) at any place x all chunkings",
 "The kinds of ill formed bytes, their place and the chunk boundary multiply; tests hold one or two fixed invalid slices.",
 ["src/reader/borrow.rs","src/reader/owned.rs","src/reader/error.rs"],[("UTF-8 validation of chunks","src/reader/owned.rs")]))
P.append(p("C23","Event positions are ordered, in range and reproducible",
 "Every event's start is not after its end, both lie within the input's byte length, starts never decrease from event to event, and the same input gives the same positions through every reader, every chunking and in both scalar modes.",
 ["inputs","configurations"],"all texts (up to the first error) x readers x modes",
 "Positions are kept by counters updated in every consuming branch; tests ignore them.",
 ["src/scanner/stats.rs","src/scanner/macros.rs",E],[("read counter","src/scanner/stats.rs MStats"),("read_at of tokens","src/scanner/entry.rs")]))
P.append(p("C24","Events stay valid and unchanged for as long as the source lives",
 "Events, clones of them and unevaluated scalars may be kept after the iterator is dropped and after any amount of further input was read, in any order of use, and never change: they equal what they were when produced. Single line quoted scalars without escapes, and plain scalars that end at an indicator on their line (keys, members of single line flow collections), are borrowed from a string source rather than copied.",
 ["inputs","histories"],"all inputs and chunkings x all orders of retaining, cloning, dropping and evaluating events",
 "Lifetimes promise validity, but the io reader hands out references into a growing store through unsafe code; that its contents never move is a claim over all read histories.",
 ["src/reader/owned.rs","src/scanner/entry.rs","src/event/types.rs"],[("append only chunk store","src/reader/owned.rs")]))
P.append(p("C25","How the iterator is driven does not matter",
 "Taking events one at a time, through any mix of borrowed iterators, by value, with any pauses or after converting back and forth, yields the same sequence as one uninterrupted iteration, repeated runs over equal input yield equal sequences, and after the stream end or an error every further request yields nothing. A string reader that is used again starts over; a byte source reader that is used again, during or after the first iteration, gives an error and no events, and leaves the first iteration as it was.",
 ["histories","inputs"],"all interleavings of iter(), into_iter(), into_inner() and next(), and of several streams from one reader, over any input",
 "A statement over call histories; the tests consume each stream once, in one way.",
 ["src/event/mod.rs",E,"src/reader/mod.rs"],[("all iterators share one parser and reader state","src/event/mod.rs Events")]))
P.append(p("C26","Implicit keys are limited to one line and 1024 bytes, others are not",
 "A key written without '?' is accepted as long as it lies on one line and takes at most 1024 bytes from its first property or character to its ':', of whatever form (plain, quoted, alias, flow collection, with properties), and is an error beyond that; a scalar that is not a key, and a key written with '?', has neither limit.",
 ["inputs"],"all key forms and lengths around and far beyond the limit, in block and flow context, at any offset in the stream",
 "A boundary on a length measured from wherever the key starts, combined with every key form; tests check one or two cases.",
 ["src/scanner/key.rs",S],[("expiry of possible keys","src/scanner/mod.rs expire_stale_saved_key, src/scanner/key.rs")]))
P.append(p("C27","Size and depth change nothing",
 "Documents of any nesting depth, collections of any number of entries, scalars, comments, anchors, tags and blank stretches of any length, and streams of any number of documents or bytes are reported by the same rules as small ones.",
 ["inputs","histories"],"all scaled up instances of valid documents (thousands of levels, entries, documents, bytes past internal buffer and integer widths)",
 "Tests contain no input of more than a few hundred bytes or a handful of levels, so counters, queues and buffers are never pushed past a small size.",
 [S,"src/scanner/context.rs","src/queue.rs","src/reader/owned.rs",E],[("growing stacks and queues","src/scanner/context.rs, src/queue.rs, src/event/state.rs")]))
P.append(p("C28","Memory is given back, and what is held stays in proportion to the input",
 "However far a stream is read and in whatever order its events, errors and iterator are kept, cloned, evaluated, given up or dropped, everything is freed once they and the reader are gone, and a byte source is dropped once, with its reader. Reading a string or byte slice, what is held at any time depends on the nesting depth and the largest single token or document header, not on how much has gone by; reading a byte source, it grows in proportion to the bytes read (somewhat faster only within one huge token); and so does the sum of all allocations.",
 ["inputs","histories","fault_sequences"],"all inputs (valid or not, failing sources) x all histories of use, and all scalings of a stream or of one detail",
 "A leak or a growing buffer changes no event: no test looks at memory, and only long histories or large inputs would show it.",
 ["src/reader/owned.rs","src/queue.rs","src/scanner/context.rs",E],[("chunk store freed with its reader","src/reader/owned.rs"),("queues and stacks drained as events are taken","src/queue.rs, src/event/parser/mod.rs, src/scanner/mod.rs")],
 observe=["a counting allocator of the harness, and the drop of the byte source"]))
P.append(p("C29","Errors tell their category and message, alike everywhere, and convert losslessly",
 "Every error, from a reader, the iterator or the evaluation of a scalar, has the category documented for its cause: I/O only when the byte source failed; data only for bytes that are not UTF-8, a number or code point out of range, or a byte source that is used twice; end of input only when the text ends inside something it began (always for an unclosed quoted scalar, and with eager scalars never for a fault that a complete document follows); syntax for everything else. It has a message, which for UTF-8 text is the same through every reader and chunking and when asked again, any position it claims lies within the input, and as an io::Error it keeps its message and becomes InvalidInput (syntax), InvalidData (data), UnexpectedEof (end of input) or the source's own error.",
 ["inputs","fault_sequences"],"all inputs that are rejected, and all failing sources, through all readers and scalar modes",
 "Tests look at a few internal error codes; the public category and the conversion are what callers branch on, for any fault anywhere.",
 ["src/error.rs","src/event/error.rs","src/scanner/error.rs","src/reader/error.rs"],[("categories of error codes","src/error.rs, impl From<ErrorCode> for Category"),("conversion to io::Error","src/error.rs, impl From<Error> for std::io::Error"),("Extend that cannot be met is an end of input","src/scanner/error.rs")],
 observe=["the public Error type and io::Error"]))
P.append(p("C30","Events are plain values: equal by content, independent when copied or changed",
 "Two events (or their data) are equal exactly when their positions, kinds, roles, names, tags, styles and evaluated contents are, whether their text is borrowed from a string, copied, read from a byte source or evaluated later. A clone, and an event made anew from another's parts, equals it; changing one through its mutable access changes that one only. All accessors of an evaluated scalar agree, evaluating it again changes nothing, the ready made constants (empty scalar, default version and tags) equal what the text without them gives, and printing events, iterators or readers for debugging never fails or disturbs what is read next.",
 ["inputs","histories"],"all events of all inputs, all pairs of them and all histories of cloning, changing and comparing",
 "Equality across ways of obtaining an event, and independence of copies, hold between pairs and over histories; tests compare each event with one literal.",
 ["src/event/types.rs","src/event/mod.rs","src/reader/owned.rs"],[("equality of scalars by data and style","src/event/types.rs Scalar, ScalarLike"),("clones share nothing that can change","src/event/types.rs, std Cow")]))
P.append(p("C31","Processing time grows with the size of the input, not faster",
 "Reading a text that is eight times as long takes in the order of eight times as long, never its square: for entries, documents, comments, line breaks, nodes and their properties repeated any number of times, and for a nesting or a single token of any size, read eagerly, lazily or with each scalar evaluated afterwards. From a byte source the same holds, but for what has to be scanned again when more of it arrives: the time of a single token may grow somewhat faster than its size.",
 ["inputs"],"all repetitions of all contents, in all modes and from both kinds of reader",
 "How time grows is a relation between runs over inputs of different sizes; the existing tests read inputs of a few lines, once.",
 ["src/event/parser.rs","src/scanner/mod.rs","src/scanner/key.rs","src/reader/owned.rs"],[("one key is kept per flow level","src/scanner/mod.rs Key"),("the head of a byte source grows geometrically","src/reader/owned.rs"),("text before a token is not looked at again","src/scanner/mod.rs eat_whitespace")]))
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P),"properties")

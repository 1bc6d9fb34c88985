#!/usr/bin/env python3
"""Writes ../properties.jsonl. One call of P() per property."""
import json, os
out = []
def P(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    out.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, where=w, meaning=m) for n, w, m in state],
            observe_at=list(observe), hook_needed=None)))
EV = "events and byte ranges from jotdown::Parser::new(src).into_offset_iter()"
HT = "string from jotdown::html::render_to_string / html::Renderer"

P("C01", "Parsing and rendering are total: no panic, no hang, bounded output",
  "For every string of reasonable nesting depth, constructing the parser, draining it and rendering the result to HTML terminates without panicking, overflowing arithmetic or exhausting the stack. The number of events is at most linear in the length of the input.",
  ["inputs"], "every UTF-8 string, including empty, CRLF, NUL, multi-byte and pathological delimiter runs, nested up to a depth of some hundreds",
  "The tests render a few hundred hand-written documents; totality is over all strings, and the afl harness in tests/afl is not part of the test run.",
  ["src/lib.rs", "src/block.rs", "src/inline.rs", "src/lex.rs", "src/attr.rs", "src/html.rs"],
  [("each block consumes at least one line; each inline token at least one byte", "src/block.rs:TreeParser::parse_block, src/lex.rs:Lexer::token"),
   ("unreachable/unwrap/slice sites rely on the pre-parsed block tree being well formed", "src/lib.rs:Parser::inline, Parser::block")],
  [("TreeParser.open", "src/block.rs", "events to patch and currently open blocks")], [EV, HT])

P("C02", "Event stream is a well-formed tree of exactly one document",
  "For every input the event sequence starts with the start of the document and ends with its end, every start event is matched by an end event of an equal container (same kind and payload) in properly nested order, and after the last event the iterator keeps returning nothing. Attributes and events outside the document never occur.",
  ["inputs"], "every UTF-8 string",
  "Tests compare whole event lists for fixed inputs; nesting discipline depends on the interplay of list, section, table, quote and verbatim closing at any point of any document.",
  ["src/lib.rs", "src/block.rs", "src/inline.rs"],
  [("tree builder enter/exit patch matching indices", "src/block.rs:TreeParser::enter/exit"),
   ("inline containers are completed at end of a leaf", "src/inline.rs:Parser::parse_container, Iterator for Parser")],
  [("TreeParser.open_sections/open_lists", "src/block.rs", "containers closed implicitly")], [EV])

P("C03", "Content model: containers only ever hold what their kind allows",
  "For every input: block elements occur only inside block containers, inline elements only inside leaf blocks or other inline containers; list items occur directly inside a list of the matching kind (and lists hold nothing else), table rows only in tables, cells only in rows, description terms and details only in description lists, captions only as first child of a table, and raw, code, verbatim and math containers hold only text. The document's direct children never include a footnote or section in a wrong place: sections occur only in the document or in a section of lower heading level and start with their heading, and links never produce a block. The methods that tell blocks and block containers apart agree with this.",
  ["inputs"], "every UTF-8 string",
  "The enumerated tests fix specific nestings; the rule is about every combination of containers, interruption and lazy continuation.",
  ["src/block.rs", "src/lib.rs", "src/inline.rs"],
  [("block parser decides nesting", "src/block.rs:TreeParser::parse_container, parse_leaf, parse_table"),
   ("inline events only emitted within leaf blocks", "src/lib.rs:Parser::next_span")], [], [EV])

P("C04", "Source ranges are valid, ordered and account for every character",
  "Every event's byte range lies within the source on character boundaries, is nested in the ranges spanned by its parent, and events appear in source order without overlapping, except that a table's caption precedes its rows (and starts where the table starts). The range of a start event is the markup that opens the container (with attributes written before a block), that of an end event the markup that closes it (with attributes written after an inline element; empty if nothing closes it), and that of any other event exactly the characters it stands for. Source text not covered by any event's range is only whitespace, block prefix/continuation markup such as `>`, the separator line of a table or the marker of its caption.",
  ["inputs"], "every UTF-8 string, including multi-byte text and every block container prefix",
  "Offset tests exist for a few dozen snippets; offsets are recomputed on many independent paths (verbatim continuation, attributes, URLs across lines, smart punctuation) that only combinations reach.",
  ["src/lib.rs", "src/block.rs", "src/inline.rs"],
  [("OffsetIter pairs each event with a span", "src/lib.rs:OffsetIter, Parser::inline, Parser::block"),
   ("span bookkeeping per token", "src/inline.rs:Input::eat, push_sp")], [("Input.span", "src/inline.rs", "range of current inline event")], [EV])

P("C05", "Text is passed through exactly once and byte-for-byte",
  "For every input, each text event is non-empty, equals the source text at its range and borrows it from there, no two text events cover the same source bytes, and every alphanumeric character of the source is either inside a text event or inside the range of a markup event that represents it (such as attributes, URLs, symbols, footnote or list markers, fences and labels). Text never appears that was not in the source.",
  ["inputs"], "every UTF-8 string",
  "Tests look at specific snippets; loss or duplication appears when inline parsing backtracks or crosses line/container boundaries.",
  ["src/lib.rs", "src/inline.rs", "src/block.rs"],
  [("Str spans merged lazily", "src/inline.rs:merge_str_events"), ("text borrowed from source slice", "src/lib.rs:Parser::inline")], [], [EV])

P("C06", "Iteration is deterministic and independent of how it is consumed",
  "For every input, the plain iterator and the offset iterator yield the same events, a parser cloned at any point yields the same remaining events as the original, repeated parses of the same source give identical results, and building with the `deterministic` feature changes nothing observable. Events can be collected, cloned and rendered later with the same HTML as rendering them directly.",
  ["inputs", "histories"], "every UTF-8 string and every point at which an iterator is cloned, split or resumed; both feature configurations",
  "No test clones an iterator mid-stream, and hash-map order only matters for inputs with several headings, references or footnotes.",
  ["src/lib.rs"],
  [("Parser: Clone carrying pre-pass, inline state and block attribute state", "src/lib.rs:Parser"),
   ("Map type switches with feature", "src/lib.rs:CowStr/Map type aliases")], [("Parser.block_attributes, table_head_row, verbatim", "src/lib.rs", "state between events")], [EV, HT])

P("C07", "Backslash escapes make any text literal",
  "For every text, writing it with a backslash before each ASCII punctuation character (and nothing that starts a block construct) yields exactly one paragraph whose rendered text is that text, with no markup; a backslash before a space gives a non-breaking space, before a newline (optionally after spaces or tabs) a hard break, and before any character that is neither ASCII punctuation nor whitespace stays a literal backslash. Every ASCII punctuation character can be escaped.",
  ["inputs"], "every single-line or multi-line text of printable characters",
  "A handful of escapes are tested; the guarantee is over all texts and adjacent combinations.",
  ["src/lex.rs", "src/inline.rs", "src/lib.rs"],
  [("escape flag in lexer", "src/lex.rs:Lexer::next_token"), ("Escape/NonBreakingSpace/Hardbreak atoms", "src/inline.rs:parse_atom")], [], [EV, HT])

P("C08", "Inline verbatim, math and raw inlines deliver their content exactly",
  "For every text and every run length n (up to the supported 255; longer runs are literal text), text enclosed between runs of n backticks that contains no run of exactly n backticks is delivered unmodified as verbatim content, except for the whitespace that separates a backtick at either end of the content from the delimiters, and line prefixes of enclosing blocks; a preceding `$` or `$$` makes it inline or display math, and a directly following `{=FORMAT}` makes it raw inline of that format. An unclosed run extends to the end of its block, and no markup is interpreted inside.",
  ["inputs"], "every text, run length, prefix and suffix, at any position in a paragraph, across lines",
  "Tests use short fixed contents and runs of length 1 to 3; exactness is over any content.",
  ["src/inline.rs", "src/lib.rs"],
  [("verbatim state machine", "src/inline.rs:parse_verbatim, ahead_raw_format"), ("space trimming", "src/inline.rs:parse_verbatim")],
  [("VerbatimState", "src/inline.rs", "open backtick run")], [EV, HT])

P("C09", "Code and raw blocks deliver their lines exactly",
  "For every text, a fenced block whose fence (at least three backticks or tildes) is longer than any fence of the same character starting a line of the text delivers that text unmodified, line by line, with the info string as language (or `=FORMAT` as raw format, where whitespace ending the last line is dropped), at most the fence's own indentation removed from each line and enclosing block prefixes removed. The block ends only at a closing fence of at least the same length or at the end of its parent, and no markup is interpreted inside.",
  ["inputs"], "every text, fence kind/length/indentation and enclosing containers",
  "Tests use a few small code blocks; exactness concerns any content, including blank lines, other fences and markup.",
  ["src/block.rs", "src/lib.rs"],
  [("fence recognition and continuation", "src/block.rs:IdentifiedBlock::new, Kind::continues"), ("per-line verbatim events", "src/block.rs:parse_leaf; src/lib.rs:Parser::inline")], [], [EV, HT])

P("C10", "Inline delimiters pair up by the documented opener/closer rules",
  "For every paragraph, emphasis, strong, superscript, subscript, mark, insert and delete containers arise exactly from pairs where the opener is not followed by whitespace (or is written `{x`) and the closer not preceded by whitespace (or is written `x}`), marked openers close only with marked closers, content is non-empty, the nearest eligible opener matches, and openers inside a closed pair are discarded to literal text; unmatched delimiters are literal text. Containers may span lines of a paragraph but never block boundaries.",
  ["inputs"], "every sequence of delimiters, spaces, words, newlines and other inline elements",
  "Pairing depends on the whole stack of pending openers; the tests enumerate short sequences only.",
  ["src/inline.rs", "src/lex.rs"],
  [("opener stack", "src/inline.rs:parse_container, Opener::closed_by, Opener::bidirectional"), ("delimiter tokens", "src/lex.rs:Lexer::token")],
  [("Parser.openers", "src/inline.rs", "pending openers")], [EV, HT])

P("C11", "Smart punctuation follows fixed rules and never alters the source range",
  "For every paragraph, three periods become an ellipsis, a run of hyphens is split uniformly into em dashes if divisible by three, else en dashes if divisible by two, else em dashes followed by one or two en dashes (a single hyphen stays literal), and quotes become left/right or opening/closing quotation marks by the documented pairing rules with explicit `{\"`/`\"}` overrides. Each such event's source range is exactly the characters it stands for.",
  ["inputs"], "every text with quotes, hyphens and periods next to any characters",
  "Run lengths and neighbour contexts are unbounded; tests try a handful.",
  ["src/inline.rs", "src/lex.rs", "src/lib.rs", "src/html.rs"],
  [("hyphen run splitting", "src/inline.rs:parse_atom"), ("quote openers", "src/inline.rs:parse_container, Opener")], [], [EV, HT])

P("C12", "Links, images and references resolve to the right destination",
  "For every document, an inline link, image or autolink carries exactly the URL as written (only line breaks and block prefixes removed; `mailto:` added for e-mail autolinks when rendered); a reference link (full, collapsed or as image) carries the URL and attributes of the last definition with that label anywhere in the document, or else the `#id` of a heading with that text, or else is marked unresolved and rendered without a destination. Attributes of the link come after those of the definition, and so override them.",
  ["inputs"], "every document of definitions, headings and uses in any order and container",
  "Resolution is a whole-document relation between definitions and uses; tests have few-definition documents.",
  ["src/lib.rs", "src/inline.rs", "src/html.rs"],
  [("pre-pass over link definitions", "src/lib.rs:PrePass::new"), ("resolution", "src/lib.rs:Parser::inline"), ("URL and label parsing", "src/inline.rs:parse_container, parse_autolink")],
  [("PrePass.link_definitions", "src/lib.rs", "label to URL and attributes")], [EV, HT])

P("C13", "Attribute syntax: accepted exactly when valid, errors located exactly",
  "For every string, parsing it as attributes succeeds exactly when it is a sequence of one or more well-formed `{...}` groups (classes, ids, key=value with bare or quoted values with backslash escapes, and %comments%), yielding the listed elements in order, and otherwise reports the position of the first offending byte. The same grammar decides whether braces in a document are attributes or text, and a rejected or unfinished group is left as ordinary text without losing characters.",
  ["inputs"], "every string over the attribute alphabet and arbitrary bytes",
  "Attribute syntax is a state machine with dozens of transitions; unit tests cover typical strings.",
  ["src/attr.rs", "src/inline.rs", "src/block.rs"],
  [("state machine", "src/attr.rs:State::step, Parser::parse, Validator::parse"), ("TryFrom<&str>", "src/attr.rs:Attributes::try_from")], [], ["Attributes::try_from(&str)", EV])

P("C14", "Attribute set API is a consistent view of one element list",
  "For every attribute set, lookup returns the last value of a key except for class, whose values are joined by single spaces in order; the unique pairs iterate each key once at its first position with that same value; membership agrees with lookup; unescaping a value removes only backslashes before ASCII punctuation; conversions to and from element vectors and the mutable/borrowing iterators preserve elements and order. The debug form of attributes obtained by parsing parses back to the same elements.",
  ["inputs", "histories"], "every list of attribute elements, built by parsing, collecting or mutating",
  "Doc-tests show single examples; the laws quantify over arbitrary lists with repeated keys and values with escapes.",
  ["src/attr.rs"],
  [("get_value / unique_pairs / contains_key", "src/attr.rs:Attributes"), ("parts iterator", "src/attr.rs:AttributeValueParts")], [], ["Attributes, AttributeValue, AttributeKind public API"])

P("C15", "Attributes attach to the right element and none is lost or invented",
  "For every document, a valid attribute group directly after an inline container (delimited, verbatim, math, link, image or bracketed span) or word attaches to that container or word, one on the line(s) before a block attaches to that block, consecutive groups merge in order, and groups with nothing to attach to (including those after atoms such as symbols, quotes and footnote references, or autolinks) are reported as dangling attribute events, so that every valid non-empty group appears exactly once in the output. No element carries attributes that were not written for it or taken over from its reference definition.",
  ["inputs"], "every placement of attribute groups among inline and block constructs",
  "Placement rules interact with every construct and line boundary; tests place attributes in a few spots.",
  ["src/inline.rs", "src/block.rs", "src/lib.rs"],
  [("inline attributes", "src/inline.rs:ahead_attributes, resume_attributes, apply_word_attributes"), ("block attributes", "src/lib.rs:Parser::block; src/block.rs")],
  [("Parser.block_attributes", "src/lib.rs", "pending block attributes"), ("Parser.attributes", "src/inline.rs", "attribute sets found in leaf")], [EV])

P("C16", "Headings: levels, section nesting and unique generated identifiers",
  "For every document, each heading has the level of its `#` run, top-level headings open a section that lasts until the next top-level heading of the same or lower level or the document's end, and headings in other containers open none. Every heading's identifier is its explicit id or else derived from its text by a fixed rule, and generated identifiers never collide with one another; section and heading events for the same heading agree on it.",
  ["inputs"], "every document of headings of any text, level, attributes and nesting",
  "Uniqueness and nesting are relations over all headings of a document; tests hold a few headings.",
  ["src/lib.rs", "src/block.rs", "src/html.rs"],
  [("section stack", "src/block.rs:parse_leaf (open_sections)"), ("id generation", "src/lib.rs:PrePass::new")],
  [("PrePass.headings/used ids", "src/lib.rs", "identifiers by location")], [EV, HT])

P("C17", "Lists: items group by marker style with right kind, start and tightness",
  "For every sequence of list items, adjacent items form one list exactly when their marker styles are compatible (same bullet character, or an ordered numbering and delimiter style that all of its items can share, ambiguous letters/roman numerals resolved by the following item), the list reports that kind and the first item's number, task items report their checked state, and an item's content is what is indented past its marker. A list is loose exactly when a blank line separates its items or blocks directly in an item (blank lines inside nested containers or before a nested list do not count). A bullet kind converts to and from its character, and no other character converts to one.",
  ["inputs"], "every sequence of markers, indentation, blank lines and nested content",
  "Ambiguity and tightness depend on later lines and nesting; tests enumerate small lists.",
  ["src/block.rs", "src/lib.rs", "src/html.rs"],
  [("marker recognition", "src/block.rs:maybe_ordered_list_item"), ("compatibility", "src/block.rs:ListType::continues, ListNumber::ambiguity"), ("tightness", "src/block.rs:parse_container")],
  [("OpenList", "src/block.rs", "list being extended"), ("prev_blankline/prev_loose", "src/block.rs", "tightness state")], [EV, HT])

P("C18", "Description lists pair each term with its details",
  "For every sequence of `:`-marked items, each item yields one term made of the item's first paragraph and one details element holding the rest of the item's blocks in order, all in one description list, and no content is lost, reordered or duplicated. Terms hold only inline content, whatever the nested blocks are.",
  ["inputs"], "every sequence of description items with any nested blocks, including nested lists and missing terms or details",
  "Handled by patching events after the fact; tests cover simple terms.",
  ["src/block.rs", "src/lib.rs"],
  [("DescriptionTerm/DescriptionDetails events", "src/block.rs:parse_container")], [], [EV, HT])

P("C19", "Tables: every row and cell appears with right text, head and alignment",
  "For every table, each row line yields one row with exactly the cells between unescaped pipes outside verbatim, in order and with their trimmed inline content; a separator line makes the directly preceding row a head row and sets the alignment by column of that row and all following rows. Each table reports a caption exactly when one follows, with its content, and rows that are not well-formed are not swallowed.",
  ["inputs"], "every grid of cells with escapes, verbatim, markup, separators in any place, and captions",
  "Alignment and head state persist over rows; tests have small tables.",
  ["src/block.rs", "src/lib.rs", "src/html.rs"],
  [("row and cell splitting", "src/block.rs:parse_table"), ("head row flag", "src/lib.rs:Parser::block")], [("table_head_row", "src/lib.rs", "row is head")], [EV, HT])

P("C20", "Footnotes are numbered, emitted once and linked both ways",
  "For every document rendered to HTML, each referenced footnote label gets one number in order of first reference (references in footnotes included), each reference links to the entry with that number, and the endnotes section has exactly one entry per referenced label in order with its defined content (or empty if undefined) and a back link to the reference. Definitions produce no output where they stand, unreferenced ones produce none at all, and without references there is no endnotes section.",
  ["inputs"], "every document of references and definitions in any order, nesting and repetition",
  "Ordering and reachability are whole-document relations over reference graphs; tests have one or two footnotes.",
  ["src/html.rs", "src/lib.rs", "src/inline.rs"],
  [("footnote bookkeeping", "src/html.rs:Footnotes, render_epilogue"), ("parsing", "src/inline.rs:parse_footnote_reference; src/block.rs")],
  [("Footnotes.references/events", "src/html.rs", "referenced labels and collected definitions")], [EV, HT])

P("C21", "Wrapping a document in a container does not change its parse",
  "For every document, prefixing each line with a block quote marker, indenting it into a list item or footnote (to the column after the marker), or enclosing it in a longer div fence yields the same events for its content as parsing it alone, except that headings open no sections. Ranges shift by exactly the inserted prefix bytes, and this composes for any nesting of containers.",
  ["inputs"], "every document and every combination of enclosing containers",
  "The tests parse most constructs at top level only; the property ranges over constructs times container stacks.",
  ["src/block.rs", "src/inline.rs", "src/lib.rs"],
  [("recursive parse on stripped line slices", "src/block.rs:parse_container"), ("multi-line inline input skipping prefixes", "src/inline.rs:Input::feed_line")], [], [EV])

P("C22", "Blocks separated by blank lines parse independently",
  "For every two documents where the first leaves nothing open (no unclosed fence or div, pending attributes, or list/footnote/table that may continue), parsing them joined by a blank line gives the events of the first followed by those of the second with ranges shifted, apart from document-wide relations (references, identifiers, sections). Extra blank lines at the start, the end or between blocks change nothing but blank-line events and list tightness.",
  ["inputs"], "every pair of documents built from closed blocks",
  "Independence quantifies over all pairs of constructs; tests concatenate few.",
  ["src/block.rs", "src/lib.rs"],
  [("block parser restarts per block", "src/block.rs:TreeParser::parse, parse_block")], [("Parser.block_attributes, table_head_row", "src/lib.rs", "state that must not leak")], [EV])

P("C23", "HTML structure mirrors the event tree",
  "For every event stream the parser yields, the rendered HTML is balanced and consists of exactly one element of the documented tag, attributes, classes and ids per container and atom, in event order, with text and raw content in place, footnotes moved to the end, and tight-list paragraphs unwrapped. Rendering equals an independent rendering of the same events by these rules.",
  ["inputs"], "every parser-produced event stream",
  "Every pair of container kinds, attributes and states matters; tests render fixed documents.",
  ["src/html.rs"],
  [("event renderer", "src/html.rs:Renderer::render_event, write_class, render_epilogue")], [("list_tightness, img_alt_text, raw, first_line, close_para", "src/html.rs:Renderer", "context state")], [HT])

P("C24", "HTML output escapes all text; nothing but explicit raw HTML gets through",
  "For every document without raw HTML content, the output contains no tag, attribute or character reference that does not stem from the renderer's own markup: text, code, URLs, image descriptions (in which raw content counts as text), attribute values, classes, ids, footnote labels and languages are escaped so that a conforming HTML tokenizer recovers exactly the original strings. Raw content is emitted verbatim only when its format is html and otherwise omitted.",
  ["inputs"], "every document, with hostile `<`, `>`, `&`, quote characters in every position",
  "Injection is about any position and any content; tests escape a few characters in text.",
  ["src/html.rs"],
  [("escaping", "src/html.rs:write_escape, write_text, write_attr"), ("raw gating", "src/html.rs:Raw")], [("raw", "src/html.rs:Renderer", "raw passthrough mode")], [HT])

P("C25", "Formatting modes change only insignificant whitespace between blocks",
  "For every document, minified, default and any indented rendering agree on everything but newlines placed between block tags and indentation at line starts outside preformatted content: text, preformatted code, attribute values, raw content and inline whitespace are identical. Minified output contains no newline that does not stem from the document, and indented output starts each line that it breaks with the configured string repeated by the initial level plus the depth of open block elements.",
  ["inputs", "configurations"], "every document and every indentation string and initial level",
  "Modes are tested on single samples; they must agree on all documents.",
  ["src/html.rs"],
  [("block/indent helpers", "src/html.rs:Renderer::block, indent, minified, indented")], [("depth, first_line", "src/html.rs:Renderer", "layout state")], [HT])

P("C26", "All output sinks get the same bytes and write errors are reported",
  "For every document, rendering to a string, to a fmt sink, to an io sink, event by event or all at once produces the same bytes regardless of how the sink splits writes. When a sink fails at any point the call returns that error (the same kind for io), nothing is written after the failure, and what was written is a prefix of the full output. All of this holds for every renderer that implements the trait: it is given each event once, in order, until it or the sink fails, and its own failure is returned.",
  ["inputs", "fault_sequences"], "every document, every write index or byte offset at which the sink fails or writes short",
  "No test uses a failing or short-writing sink.",
  ["src/lib.rs", "src/html.rs"],
  [("write adapter keeping the io error", "src/lib.rs:Render::write_event/write_events"), ("? on every write", "src/html.rs")], [("WriteAdapter.error", "src/lib.rs", "pending io error")], [HT, "Render::{push_event,push_events,write_event,write_events}"])

P("C27", "Command line tool renders its input completely or fails loudly",
  "For every input given by file or standard input and every combination of formatting options, the tool writes exactly the library's rendering with those options (events are not altered) to standard output or the chosen file and exits 0. If the input cannot be read or is not UTF-8, or the output cannot be fully written, it exits non-zero with a message on standard error.",
  ["inputs", "configurations", "fault_sequences"], "every document, option combination and failing input or output",
  "The tool has no tests.",
  ["src/main.rs"],
  [("run()", "src/main.rs")], [], ["process exit code, stdout, stderr and output file of the jotdown binary"])

P("C28", "Blocks: what starts, continues and ends each kind of block",
  "For every document, the tree of blocks depends only on how its lines start (a table row also on its end), never on inline content: a paragraph or caption takes in every line up to one of only ASCII whitespace or the end of its container, whatever it looks like; a heading takes in following lines that start no block or a heading of the same level, a block quote lines that start no block or with `>` and whitespace, list items and footnotes blank lines, more indented lines and, unless after a blank line, lines that start no block. A div goes from a line of at least three colons and at most one class name to a bare one at least as long (outside of code blocks in it), a line of at least three `*` or `-` and whitespace is a thematic break, `[label]:` starts a definition, `[^label]:` a footnote, and lines of only whitespace between blocks are blank lines.",
  ["inputs"], "every sequence of lines, with any prefixes, indentation and nesting",
  "What a line means depends on all containers open at it and the lines before; the tests enumerate pairs of constructs at most.",
  ["src/block.rs"],
  [("what starts a block", "src/block.rs:IdentifiedBlock::new"), ("what continues it", "src/block.rs:Kind::continues"), ("prefix removal", "src/block.rs:TreeParser::parse_container")],
  [("TreeParser.open, Kind fields", "src/block.rs", "blank lines, fences and captions seen")], [EV])

P("C29", "Inline atoms: symbols, line breaks, references, autolinks and spans",
  "For every leaf block, each line end within it (outside of verbatim text) yields exactly one soft break, or one hard break if a backslash (and possibly spaces or tabs) precedes it, the indentation of the next line being dropped; `:name:` with a (possibly empty) name of ASCII letters, digits, `_`, `-` and `+` is a symbol; `[^label]` a footnote reference with exactly that label; `<` and `>` around text without whitespace or `<` that has a `:` or `@` an autolink or e-mail link of that text; and brackets directly followed by an attribute group a span. Anything else that resembles them is text, and neither they nor their labels are interpreted further.",
  ["inputs"], "every sequence of these constructs, partial forms of them, delimiters and line ends",
  "Partial and overlapping forms are unbounded; the tests contain each atom in a few contexts.",
  ["src/inline.rs", "src/lex.rs", "src/lib.rs"],
  [("symbols, references and autolinks", "src/inline.rs:parse_symbol, parse_footnote_reference, parse_autolink"), ("breaks", "src/inline.rs:parse_atom, src/lex.rs"), ("spans", "src/inline.rs:parse_container")], [], [EV])

P("C30", "Rendering holds for edited event streams, not only the parser's own",
  "For every event stream derived from the parser's by replacing texts, attributes or the payloads of containers, and by dropping, repeating, unwrapping, renaming or inserting complete elements and atoms where their kind is allowed, in any number and order, the HTML in each formatting mode is the one given by the rules for parsed streams: one element per container and atom in order, with texts, URLs, classes, ids, languages, labels and attribute values escaped, footnotes numbered in order of first reference, tight lists without paragraph tags, and no state left over from one element to the next.",
  ["inputs", "histories"], "every document and every sequence of edits to its events",
  "Filters between parser and renderer are an intended use; tests render parsed streams only, so values that the parser never yields and state after unusual sequences are not reached.",
  ["src/html.rs", "src/attr.rs", "src/lib.rs"],
  [("event renderer", "src/html.rs:Renderer::render_event, write_class, write_attr"), ("footnotes", "src/html.rs:Footnotes, render_epilogue")],
  [("raw, img_alt_text, list_tightness, first_line, footnotes", "src/html.rs:Renderer", "context state")], [HT])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for o in out: f.write(json.dumps(o, ensure_ascii=False) + "\n")

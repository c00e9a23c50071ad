#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe_at=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": mechanism, "where": files[0]}]}
    if state: a["state"] = [{"name": state, "where": files[0]}]
    if observe_at: a["observe_at"] = observe_at
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every generated PDF is structurally valid",
  "Whatever sequence of documented drawing-API calls built a document, the bytes written form a self-consistent PDF file: the cross-reference table gives the exact byte offset of every object, startxref and Size are right, each stream's Length is its exact byte count, every reference resolves and every resource name used by a page is defined exactly once. The page tree lists exactly the pages that were added, in order, each with the media box corresponding to its size at 0.75 point per CSS px.",
  ["histories", "inputs"], "every sequence of add-page / set-colour / paint-rectangle / show-text calls (several page sizes, colours, opacities, fonts, empty pages) up to a depth bound, and serialising at the end or repeatedly",
  "tests/pdf.rs compares two fixed documents byte for byte and lester renders a handful; nothing parses the cross-reference table for other call sequences, and readers silently repair broken ones",
  ["victor/src/pdf/syntax.rs", "victor/src/pdf/convert.rs", "victor/src/pdf/object.rs", "victor/src/pdf/mod.rs"],
  "PdfFile::write computes offsets through CountingWrite; pages and resources are collected in InProgressDoc", observe_at=["bytes of Document::write_to_pdf_bytes"])

prop("C02", "Each page paints exactly what the calls said, in order",
  "Interpreting a page's content stream with the PDF imaging model yields exactly the sequence of filled rectangles and text runs requested for that page, in call order, each at the requested position, size and font size and with the colour and opacity most recently set on that page. A new page starts in opaque black whatever earlier pages did; opacity is clamped to 0..1 and reproduced to within 1/65535.",
  ["histories"], "every sequence of drawing calls over a small alphabet of colours (including equal RGB with different alpha, out-of-range and nearly equal alphas), rectangles, fonts and text, across several pages, up to a depth bound",
  "the painter elides colour and opacity operators against cached graphics state and shares opacity/font resources between pages, so mistakes need a particular order of calls; the tests draw two fixed documents",
  ["victor/src/pdf/convert.rs", "victor/src/pdf/mod.rs", "victor/src/primitives.rs"],
  "InProgressPage caches colour/alpha and looks up shared ExtGState and Font resources", state="GraphicsState of a page; alpha_states / fonts maps of the document", observe_at=["page content streams"])

prop("C03", "Numbers survive PDF serialisation",
  "Every finite coordinate, size, colour component or scale passed to the drawing API is written as a number that the PDF grammar allows (optional sign, digits, at most one period; no exponent), and reading it back gives the same single-precision value.",
  ["inputs"], "every (sign, exponent) pair of single-precision floats with a set of boundary mantissas, in each operand position (rectangle, matrix, colour, page size, font size)",
  "tests use half a dozen round numbers; printers and parsers disagree only at extreme exponents and long mantissas",
  ["victor/src/pdf/object.rs", "victor/src/pdf/convert.rs"], "Object::write for floats", observe_at=["content stream operands", "MediaBox"])

prop("C04", "Embedded fonts reproduce the source font and its metrics",
  "Each distinct font used by a document is embedded once, its font program byte-identical to the source, under a PDF name that decodes to the font's PostScript name; glyph widths, bounding box, ascent and descent agree with the font's tables to within 1/1000 em for every glyph and any units-per-em. The embedded to-Unicode table maps exactly the glyphs reachable from the font's character map back to their characters, in blocks of at most 100 entries, including characters outside the basic plane.",
  ["inputs", "histories"], "well-formed synthetic TrueType fonts enumerated over units-per-em, glyph counts, shared trailing advance widths, signed metrics, character-map sizes around multiples of 100, formats and PostScript names, and every order of using up to four fonts, two of which share a name",
  "the only fonts in the tests are Bitstream Vera and Ahem, with 2048/1000 units per em and one cmap shape each",
  ["victor/src/fonts/mod.rs", "victor/src/fonts/cmap.rs", "victor/src/fonts/tables.rs", "victor/src/pdf/convert.rs", "victor/src/pdf/object.rs"],
  "InProgressDoc::add_font and Font::parse", observe_at=["font dictionaries and streams of the PDF"])

prop("C05", "Characters map to the glyphs the font's character map assigns",
  "For any well-formed font and any Unicode character, shaping selects the glyph that the font's preferred Unicode character map (full-repertoire segmented coverage over BMP-only segment mapping) assigns to it, or glyph 0 when it assigns none. Delta arithmetic wraps modulo 65536 and glyph-array indirections are honoured as the OpenType specification defines.",
  ["inputs"], "every combination of up to three segments/groups over boundary code points, deltas and range offsets, for both supported map formats and encoding-record orders, queried at and around every boundary",
  "the two test fonts exercise a single cmap layout; segment boundaries, wrap-around deltas, the 0xFFFF sentinel and glyph-array offsets are never varied",
  ["victor/src/fonts/cmap.rs", "victor/src/fonts/parsing.rs", "victor/src/fonts/mod.rs"], "Cmap::get / each_code_point, binary search over tables", observe_at=["glyph codes shown in the PDF content stream", "ToUnicode stream"])

prop("C06", "Malformed fonts are rejected or tolerated, never fatal",
  "Parsing any byte string as a font, and then shaping text with it and embedding it in a document, always terminates with either success or a reported error; it never panics, aborts, hangs or exhausts memory.",
  ["inputs", "fault_sequences"], "every truncation of valid fonts, and every assignment of boundary values to every 8/16/32-bit header, table-directory and character-map field (pairs of fields for the directory and cmap) of small valid fonts",
  "there is no malformed font among the tests; each defect needs one particular field to hold one particular boundary value",
  ["victor/src/fonts/parsing.rs", "victor/src/fonts/mod.rs", "victor/src/fonts/cmap.rs", "victor/src/fonts/tables.rs"], "bounds-checked offset reads with checked/wrapping arithmetic", observe_at=["Font::parse", "ShapedSegment::naive_shape", "Page::show_text"])

prop("C07", "Shaped text accumulates glyphs and widths; restore undoes appends",
  "A shaped segment's glyphs are the per-character glyphs in order; restoring a saved state returns the segment to exactly what it was when saved, whatever was appended since, and appending afterwards behaves as if the undone text had never been added. Appending a string, its characters one by one, or shaping it at once are equivalent. A character that cannot be appended gives an error and adds nothing to the segment.",
  ["histories"], "every sequence of append / append-char / save / restore-any-earlier-save operations up to a depth bound over characters with different widths, clones included",
  "save/restore is only exercised indirectly by line breaking of two documents",
  ["victor/src/text.rs"], "ShapedSegment::{append, save, restore}", state="glyph vector and advance width", observe_at=["glyph codes and following-segment position when painted"])

prop("C08", "Plain-text layout breaks and places every line correctly",
  "Laying out plain text keeps every character except line feeds that end a segment, in order, breaks lines greedily and only at allowed break opportunities (always at mandatory ones), lets a line exceed the measure only if it holds a single unbreakable segment, and starts successive lines one line height apart from the page's top margin and left margin. A new page is started exactly when the next line would start below the bottom margin, and justification stretches every broken line to exactly the measure while leaving paragraph-final lines alone.",
  ["inputs", "configurations"], "every text up to a length bound over an alphabet of narrow and wide letters, spaces, hyphens and line feeds, for several page sizes, margins, line heights and with and without justification",
  "the test lays out one book excerpt with one style; off-by-one errors at page boundaries, single-segment lines or consecutive line feeds do not occur in it",
  ["victor/src/text_plain.rs", "victor/src/text.rs"], "layout: pages/lines/segments loops over line break opportunities", observe_at=["text matrices and glyph codes of the PDF"])

prop("C09", "HTML is parsed to the tree the HTML standard defines",
  "For any byte string, the document tree contains the elements, attributes and text of the tree defined by the HTML parsing algorithm, in the same tree positions, including when the algorithm moves, re-parents or merges nodes (foster parenting, adoption agency, duplicated html/body attributes). Queries for link elements report exactly the HTML link elements that have both rel and href, in tree order, with their attributes.",
  ["inputs", "programs"], "every token sequence up to a length bound over tags that trigger tree surgery (formatting elements, tables, selects, paragraphs, frames, foreign content), text and attributes, compared with the reference DOM of the tokenizer library",
  "the reftests use well-formed markup, where nodes are only ever appended; sibling/parent link surgery needs misnested markup",
  ["victor/src/dom/html.rs", "victor/src/dom/mod.rs"], "TreeSink implementation over sibling-linked nodes", state="parent/sibling/child links of the node arena", observe_at=["rendered page decoded back to a tree", "Document::html_link_elements"])

prop("C10", "XML is parsed to the tree the document describes",
  "A well-formed XML document yields the element tree, attributes (with namespaces) and merged character data that it describes, and a document that is not well-formed yields an error rather than a tree or a panic.",
  ["inputs", "programs"], "every sequence up to a length bound of start/end/empty tags in two namespaces, attributes, text, CDATA, comments and processing instructions, well-formed or not",
  "no stable test parses XML with namespaces, mixed content or errors",
  ["victor/src/dom/xml.rs", "victor/src/dom/mod.rs"], "event loop with an ancestor stack", observe_at=["rendered page decoded back to a tree", "html_link_elements", "Result of parse_xml"])

prop("C11", "The cascade picks the winning declaration for every element",
  "For every element and property the value used is that of the declaration that wins by origin and importance, then style attribute, then selector specificity, then order of appearance across all style elements in tree order and within each rule list. Repeated or partially invalid declarations never let a losing declaration win.",
  ["programs", "inputs"], "every assignment of up to four declarations to origins (user agent, author style elements, style attribute), importance, specificity classes and document order, for several elements",
  "reftests contain a few rules per page and never two that compete in importance and specificity and order at once",
  ["victor/src/style/cascade.rs", "victor/src/style/declaration_block.rs", "victor/src/style/rules.rs", "victor/src/layout/dom_traversal.rs", "victor/src/dom/mod.rs"],
  "MatchingDeclarations push/sort/apply", observe_at=["background colours painted for each element"])

prop("C12", "Inheritance, defaulting and currentColor follow the CSS rules",
  "A property with no winning declaration takes its parent's computed value if it is inherited and its initial value otherwise; inherit, initial and unset do exactly what they say for every property, at the root too, and currentColor follows the used text colour of the element it is used on. Boxes generated without an element of their own inherit inherited properties only.",
  ["programs", "inputs"], "chains of up to three elements with every combination of explicit, missing, inherit, initial and unset values for every supported property",
  "the tests never use the CSS-wide keywords and only inherit text colour or font size from body",
  ["victor/src/style/properties/mod.rs", "victor/src/style/properties/macros.rs", "victor/src/style/values/color.rs", "victor/src/style/cascade.rs"],
  "ComputedValues construction from parent and initial values, CSS-wide keyword handling", observe_at=["painted rectangles and text"])

prop("C13", "Selectors match exactly the elements they describe",
  "A style rule applies to an element if and only if one of its selectors matches that element: type, universal, class (whitespace-separated tokens), id, attribute operators, structural pseudo-classes, negation and the descendant, child, next-sibling and subsequent-sibling combinators mean what the Selectors specification says, in both HTML and XML documents.",
  ["inputs", "programs"], "every selector built from a small alphabet of compounds and combinators up to three compounds, against every ordered tree of up to four or five elements with class/id/attribute assignments",
  "tests use only type and single-class selectors without combinators",
  ["victor/src/style/selectors.rs", "victor/src/style/rules.rs", "victor/src/dom/mod.rs"], "selectors::Element implementation over the node arena", observe_at=["background colour of each element in the rendered page"])

prop("C14", "Invalid CSS is skipped exactly as the error-recovery rules say",
  "An invalid declaration, selector, at-rule or stray token makes the parser ignore just that construct and never its valid neighbours; whatever follows at the prescribed resynchronisation point is still applied. No stylesheet or style attribute, valid or not, can make rendering panic or hang.",
  ["inputs", "programs"], "every sequence up to a length bound of valid and invalid declaration/rule fragments (trailing garbage, unknown properties, bad values, unbalanced brackets, nested blocks, unterminated strings, misplaced !important, unknown at-rules)",
  "the tests contain no invalid CSS",
  ["victor/src/style/declaration_block.rs", "victor/src/style/rules.rs", "victor/src/style/errors.rs"], "DeclarationListParser / RuleListParser with error recovery", observe_at=["painted rectangles"])

prop("C15", "Property values parse and compute as CSS defines",
  "Every supported longhand accepts exactly its documented value grammar (keywords and units ASCII case-insensitively; lengths in px, in em relative to the right font size, or unitless zero; percentages of the right dimension; colours) and computes the corresponding value; anything else is rejected and leaves the previous winner in place. Setting one longhand changes that property only.",
  ["inputs"], "every supported longhand combined with every value of a token alphabet covering each production, its boundary values, letter-case variants and near misses",
  "reftests use a few px/em/% values in lower case on a few properties",
  ["victor/src/style/values/length.rs", "victor/src/style/values/box_.rs", "victor/src/style/values/border.rs", "victor/src/style/values/color.rs", "victor/src/style/values/fonts.rs", "victor/src/style/values/background.rs", "victor/src/style/properties/definitions.rs", "proc-macros/src/lib.rs", "proc-macros/src/style.rs"],
  "FromCss and ToComputedValue implementations, generated property tables", observe_at=["painted rectangles and text"])

prop("C16", "Shorthands set exactly their longhands",
  "A shorthand declaration assigns to each of its longhands the value its grammar gives it (one to four values for margin, padding, border-style, border-color and border-width; any order for border-top and its sisters; a colour for background), resets omitted ones to their initial value, applies CSS-wide keywords and importance to all of them, and has no effect at all when any part is invalid; longhands and shorthands override each other purely by cascade order.",
  ["inputs", "programs"], "every combination of one to four values for each four-sided shorthand, every permutation and subset of components for border shorthands, and every ordering of shorthand and longhand declarations up to a bound",
  "tests use one-, two- and four-value margins and paddings in a few places",
  ["victor/src/style/properties/definitions.rs", "victor/src/style/properties/macros.rs", "victor/src/style/values/generic.rs", "victor/src/style/values/border.rs", "victor/src/style/values/background.rs"],
  "shorthand expansion macros and FourSides parsing", observe_at=["painted rectangles"])

prop("C17", "Block layout satisfies the CSS block formatting equations",
  "In normal flow every block-level box has the width, horizontal position and height CSS 2 prescribes: margins, borders, padding and width fill the containing block (auto widths and margins solved accordingly), auto heights enclose the in-flow content, and percentages refer to the containing block. Vertical margins collapse between adjoining siblings, through empty boxes and with parents exactly when nothing separates them, taking the largest positive plus the most negative margin, and new block formatting contexts stop collapsing.",
  ["inputs", "configurations"], "every tree of up to four blocks with margins, padding, borders, widths and heights drawn from a small alphabet (positive, negative, zero, auto, percentages, display flow-root)",
  "a single reftest (blocks.html) covers a handful of fixed combinations; margin collapsing has many interacting cases",
  ["victor/src/layout/flow/mod.rs", "victor/src/layout/flow/root.rs", "victor/src/geom.rs", "victor/src/layout/fragments.rs"],
  "layout_block_level_children with collapsing-margin bookkeeping", state="current/parent collapsible margins", observe_at=["painted border boxes"])

prop("C18", "Positioned boxes land where the positioning equations put them",
  "A relatively positioned box is offset from its normal position without disturbing anything else; an absolutely positioned box is taken out of flow and placed and sized by the offset/size/margin equations of CSS 2 against the padding box of its nearest positioned ancestor (or the initial containing block), using its static position when both offsets of an axis are auto. The inline and block axes are solved independently, each against its own containing-block dimension.",
  ["inputs", "configurations"], "every assignment of auto/length/percentage to offsets, size and margins per axis, for absolute and relative boxes nested in static/relative/absolute ancestors of non-square size",
  "the abspos reftests use square containing blocks and px offsets, so mixing up axes or edges goes unnoticed",
  ["victor/src/layout/positioned.rs", "victor/src/layout/flow/mod.rs", "victor/src/layout/flow/root.rs"], "solve_axis and static position bookkeeping", state="fragments awaiting their containing block", observe_at=["painted border boxes"])

prop("C19", "Inline layout keeps text in order, on lines that fit",
  "Text in an inline formatting context is painted once, in document order, with collapsed white space, at its font size, on successive lines that do not overlap; a line extends past the available width only when it starts with an unbreakable unit that does not fit. Each inline box's background spans its own text, and content after the text starts below its last line.",
  ["inputs", "configurations"], "every sequence up to a bound of words, spaces, break opportunities and nested inline elements with padding and font sizes, in containers of several widths",
  "the text reftest is not stable here and covers one paragraph; line-breaking state spans nested inline boxes",
  ["victor/src/layout/flow/inline.rs", "victor/src/layout/flow/construct.rs", "victor/src/text.rs"], "InlineFormattingContext layout with partial inline boxes and text-run splitting", state="inline nesting levels, line boxes", observe_at=["text matrices, glyph codes and rectangles in the PDF"])

prop("C20", "Every rendered element and text generates its boxes exactly once",
  "Rendering any document (of moderate nesting depth) terminates without panicking and paints each non-collapsed text run and each visible box background exactly once, parents before children and siblings in document order; display none removes a subtree entirely, display contents removes only the element's own box, and a block inside an inline splits the inline around it while preserving order and style.",
  ["programs", "inputs"], "every tree of up to five nodes assigning each element a display and position value and interleaving text and white space",
  "tests contain no display contents, no block-in-inline and no mixed inline/block siblings around comments",
  ["victor/src/layout/dom_traversal.rs", "victor/src/layout/flow/construct.rs", "victor/src/layout/flow/root.rs", "victor/src/paint.rs"], "box-tree builders for block containers and inline formatting contexts", state="ongoing inline formatting context and inline-level box stack", observe_at=["order and colours of painted rectangles and text"])

prop("C21", "Rendering is deterministic under every parallel schedule",
  "The PDF produced for a document does not depend on how the layout's parallel tasks are split, scheduled, stolen or interleaved, nor on the number of worker threads, and rendering the same document again gives the same bytes.",
  ["schedules", "histories"], "every order of executing the two sides of each parallel join and every split tree offered by the scheduler, for documents that mix parallel and sequential layout, absolute boxes and collapsing margins; repeated renderings",
  "the tests run once per document with whatever schedule the machine happens to produce",
  ["victor/src/layout/flow/mod.rs", "victor/src/layout/flow/root.rs", "victor/src/layout/flow/construct.rs", "victor/src/layout/positioned.rs"], "rayon parallel iterators with ordered reduction of out-of-flow fragments", state="per-task absolutely positioned fragment lists, box slots", observe_at=["bytes of to_pdf_bytes"])

prop("C22", "The text of generated documents can be extracted",
  "Extracting the text of a page of a generated PDF with an independent reader (through lester) gives the characters that were shown on that page, for every Unicode character that the font maps, whichever fonts and pages are used and however many characters a font has; a rendered document or laid-out plain text yields its words, complete and in order. White space, directional marks and noncharacters may be normalised by the reader.",
  ["inputs", "histories"], "every Unicode character, every number of mapped characters up to a bound, every sequence of up to four runs of text in several fonts over pages in any drawing order, and every small HTML or plain-text token sequence",
  "no test extracts text; to-Unicode tables, font identity and page resources have to be right together, which only another PDF reader can tell",
  ["victor/src/pdf/convert.rs", "victor/src/fonts/cmap.rs", "lester/src/poppler.rs", "victor/src/text.rs"], "ToUnicode CMap of each font, glyph codes of each run; Page::text through poppler", observe_at=["lester Page::text"])

prop("C23", "PDF output reaches every sink intact or reports the error",
  "Writing a document to any stream delivers exactly the bytes of the in-memory serialisation, whatever sizes of partial writes or interruptions the stream answers with; if the stream fails at any point the call returns that error, and never success. Writing to a file path succeeds only if the complete file was written, and writing repeatedly yields identical bytes.",
  ["fault_sequences", "histories"], "every position of an error, zero-length write, interruption or short write (and pairs of them) in the sequence of write calls, and a file sink that fails at each point",
  "tests only ever write to healthy in-memory or file sinks",
  ["victor/src/pdf/mod.rs", "victor/src/pdf/syntax.rs"], "write_to_pdf over a byte-counting adapter; buffered file writer", observe_at=["bytes accepted by the sink", "returned io::Result"])

prop("C24", "PNG reading and writing survive every stream behaviour",
  "Encoding an image to a stream or decoding one from it gives the same result for any chunking of reads or writes; an I/O error or end of stream at any call is returned as an error (the stream's own error for I/O errors), a panic in the stream propagates as that panic, and no case crashes, leaks control through foreign code or returns success with missing data. Pixels and size survive a write/read round trip.",
  ["fault_sequences", "inputs"], "a fault of each kind (error, panic, zero, short, interrupted, truncated data) at every stream call, and pairs, for several image sizes",
  "tests inject one early error and one panic into one direction",
  ["lester/src/cairo.rs", "lester/src/convert.rs", "lester/src/errors.rs"], "cairo stream callbacks with caught panics and recorded io::Error", observe_at=["returned Result", "panic payload", "bytes delivered"])

prop("C25", "Pages of a loaded PDF can be visited in any order, safely",
  "The page collection reports the exact page count, yields each page exactly once under any mix of forward and backward iteration with exact remaining lengths, and indexed access returns a page exactly for indices below the count. Pages report their size and text and stay usable in any order of dropping iterators and documents, every underlying object is released exactly once, and bytes that are not a PDF give an error.",
  ["histories"], "every sequence of next, next-back, nth, length and drop operations up to a depth bound on documents of zero to four pages with distinct sizes",
  "tests only take the single page of one-page documents",
  ["lester/src/poppler.rs"], "PagesIter over an index range; raw poppler object ownership", state="iterator range, poppler reference counts", observe_at=["page sizes returned"])

prop("C26", "Rasterised pages match the drawn content at the requested scale",
  "Rendering a page to an image gives dimensions that are the page size in CSS px times the requested dots per px, rounded up, on the requested backdrop; every rectangle drawn through the PDF API covers exactly its pixels with its composited colour when aligned to the pixel grid.",
  ["inputs", "configurations"], "page sizes and resolutions over a grid that includes fractional products, both backdrops, and every arrangement of up to three aligned rectangles with opaque and translucent colours",
  "the tests render four fixed pages at one resolution each",
  ["lester/src/poppler.rs", "lester/src/cairo.rs", "victor/src/pdf/convert.rs"], "RenderOptions to surface size, poppler rendering, pixel access", observe_at=["ImageSurface width/height/pixels"])

prop("C27", "The command-line program writes the library's PDF or fails cleanly",
  "Running the program with an input and an output path writes exactly the PDF that the library produces for the bytes of the input file, whatever those bytes and whatever the output path held before, and exits with status 0. In every other case (missing arguments, an input that cannot be read, an output that cannot be written completely) it exits with a non-zero status and a message, without crashing, and an unreadable input never changes an existing output.",
  ["fault_sequences", "inputs"], "every small input over valid and undecodable byte sequences, input sizes around powers of two, every amount of room for the output, and every combination of kinds of input and output paths",
  "no test runs the program",
  ["victor/src/main.rs", "victor/src/dom/html.rs", "victor/src/layout/mod.rs"], "main: read, parse, lay out, write", observe_at=["exit status", "output file"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")

#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run by hand after editing; both are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, qtext, why, files, mech, technique, note, level="exploration", na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, level=level, na=na))


COMMON_NOTE = " Held on the executions produced, nothing more; trusts the harness model, rustc and the dependencies."

p("C01", "PDF pages become exactly their printed text, line by line",
  "For every PDF page of horizontal text in the default coordinate system, the extracted lines contain exactly the non-blank characters drawn inside the crop box, each once, grouped by baseline from top to bottom and ordered left to right. "
  "A space appears between two neighbours exactly where the gap is wider than half a space (or before an opening quote), an empty line exactly where two baselines are more than 16 points apart, and every line reports the position of its first character, its boldness and whether it reaches the right margin. "
  "How the text was drawn (order, operators, font kind, encoding, ligatures, replacement texts, nested forms) does not matter. A page drawing a code whose character is not known is refused, never read with that character missing or guessed.",
  ["inputs"], "every page content stream over the text operators, font kinds and encodings the reader supports, any drawing order, any crop box",
  "The repository compares a few captured single pages; the space of operator sequences, encodings, state save/restore nestings and geometries is unbounded.",
  ["src/parser/pdf/page.rs", "src/parser/pdf/collector.rs", "src/parser/pdf/textstate.rs", "src/parser/pdf/font.rs", "src/parser/pdf/page_of_lines.rs", "src/parser/pdf/actual_text.rs"],
  [("text state machine", "src/parser/pdf/page.rs"), ("line consolidation", "src/parser/pdf/page_of_lines.rs"), ("code to unicode maps", "src/parser/pdf/font.rs")],
  "runtime monitoring: synthetic PDFs from a placement model, extracted lines compared with the model by a reference oracle",
  "Random synthetic PDFs (operators, fonts, encodings, forms, save/restore) are read by the real parser and every line is compared with an independent placement model.")

p("C02", "Pages and documents are read independently and deterministically",
  "Reading a multi-page PDF gives, for each page, exactly the lines that page gives in a document of its own; no page, form or font affects the characters, spacing or boldness of another. "
  "Reading the same bytes again, in the same or in another thread, gives the same lines.",
  ["inputs", "schedules", "histories"], "every combination and order of pages, fonts and forms; every repetition and thread",
  "All PDF test data are single pages read once; a leak between pages or stale cached fonts can only show with several pages, fonts and repeated reads.",
  ["src/parser/pdf/mod.rs", "src/parser/pdf/font.rs", "src/parser/pdf/page.rs"],
  [("font cache", "src/parser/pdf/font.rs"), ("per-page renderer and collector", "src/parser/pdf/mod.rs")],
  "runtime monitoring: differential oracle between the multi-page document, each page alone and a placement model, repeated and concurrent reads",
  "Multi-page documents with many distinct fonts are read whole, page by page, repeatedly and from 8 threads; all results must agree.")

p("C03", "Gazette issues are cut into exactly their acts",
  "For every issue of the gazette, each act printed in its acts section is returned exactly once, in order, with its own number, subject and the issue's date, and with a body holding all of its lines from after the title to before the signatures, in order and unchanged. "
  "Cover, table of contents, other sections, the adoption footnote and the signatures never get into a body, page breaks separate lines by an empty line, and a body never has two consecutive empty lines.",
  ["inputs", "histories"], "every sequence of pages with any number of acts, sections, footnotes, page breaks inside acts, and missing section headers",
  "Only the empty-line helper is unit tested; no test feeds a whole issue with several acts, sections or page breaks.",
  ["src/parser/mk_act_section.rs", "src/util/hun_str.rs"],
  [("section start/stop tracking", "src/parser/mk_act_section.rs"), ("act extraction state machine", "src/parser/mk_act_section.rs")],
  "runtime monitoring: generated issues with known acts, oracle compares every returned act with the generator's record",
  "Issues assembled from random acts and distractors (sections, footnotes, page breaks) are cut by the real code and compared line by line.")

p("C04", "Printed acts parse back into the structure they were printed from",
  "An act laid out in the gazette's conventions (numbered and titled books, parts, titles, chapters, subtitles, articles, paragraphs, points, subpoints, intros, wrap-ups and quoted blocks) is parsed back into exactly that tree: same identifiers, titles, texts and nesting. "
  "This holds for every consecutive numbering, including inserted numbers (such as 5/A or 2a) and book-prefixed article numbers, and for every way of breaking the texts into lines.",
  ["inputs"], "every act tree the layout can express and every line breaking of it",
  "The repository parses about 25 fixed documents; trees, numberings and line breakings are unbounded.",
  ["src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/parser/structure/sae.rs", "src/parser/structure/structural_element.rs", "src/parser/structure/subtitle.rs", "src/parser/structure/quote.rs"],
  [("article and structural header detection", "src/parser/structure/act.rs"), ("child extraction with indentation and succession", "src/parser/structure/sae.rs"), ("quoted blocks", "src/parser/structure/quote.rs")],
  "runtime monitoring: random act trees printed by an independent typesetter, parsed by the real code, tree equality oracle",
  "Random trees, numberings and line breakings; equality with the generating tree is the verdict.")

p("C05", "Structure parsing neither loses nor invents text",
  "Whenever an act is parsed successfully, every word of its body appears in the resulting tree exactly once and in the original order (as identifier, title, text, intro, wrap-up or quoted line); nothing is dropped, duplicated, moved or invented. "
  "Otherwise parsing reports an error. This holds for arbitrary line sequences, not only well-formed acts.",
  ["inputs"], "every sequence of positioned lines, well formed or not",
  "Test documents are all well formed and fixed; ambiguous headers, misleading indentation and malformed numbering are where text could be lost.",
  ["src/parser/structure/act.rs", "src/parser/structure/article.rs", "src/parser/structure/sae.rs", "src/parser/structure/quote.rs"],
  [("line feeding state machine", "src/parser/structure/act.rs"), ("wrap-up splitting", "src/parser/structure/sae.rs"), ("article title extraction", "src/parser/structure/article.rs")],
  "runtime monitoring: conservation oracle (input characters versus a flattening of the parsed tree) under hostile line sequences",
  "Random, ambiguous and mutated bodies; for each accepted one the flattened tree must equal the input text.")

p("C06", "Block amendments convert faithfully or not at all",
  "When a paragraph announces an amendment and quotes its new text, conversion replaces the quotation by the parsed elements, containing exactly the quoted words in order, with the intro and wrap-up kept; articles, paragraphs, points and subpoints start at the announced position and follow one another in numbering. "
  "If the quotation cannot be converted, an error is reported and the paragraph is left exactly as it was; paragraphs without such an announcement or with several quotations are never touched.",
  ["inputs"], "every kind of amended position (articles, paragraphs, points, subpoints, structural units, titles) and every quoted text, matching or not",
  "The conversion data tests need a missing dependency and do not run; failure behaviour is never tested.",
  ["src/parser/structure/block_amendment.rs", "src/parser/structure/sae.rs", "src/parser/structure/act.rs"],
  [("conversion by announced position", "src/parser/structure/block_amendment.rs"), ("justification based wrap-up splitting", "src/parser/structure/sae.rs")],
  "runtime monitoring: model and conservation oracles over generated amendments, before/after state comparison on failure",
  "Generated amendments with known expected elements plus hostile quotations; text conservation and all-or-nothing are checked on each.")

p("C07", "Quoted text is never taken for structure",
  "Whatever stands between quotation marks, including nested quotations and lines that look exactly like headers, never starts an article, a structural unit, a paragraph or a point of the surrounding act: it stays inside the text or becomes a quoted block whose lines are the quoted lines unchanged. "
  "An act that has closed more quotations than it opened by the end of any line, or that leaves one open, is rejected.",
  ["inputs"], "every quoted content, nesting depth, quotation mark style and position in the act",
  "A handful of fixed quotations are tested; isolation must hold for any quoted content.",
  ["src/util/mod.rs", "src/parser/structure/act.rs", "src/parser/structure/sae.rs", "src/parser/structure/quote.rs"],
  [("quote level tracking", "src/util/mod.rs"), ("quoted block state machine", "src/parser/structure/quote.rs")],
  "runtime monitoring: metamorphic and model oracles with header-like quoted content, quote balance reference automaton",
  "Quoted header look-alikes are planted in acts; the surrounding tree must be the one without them, and unbalanced acts must be refused.")

p("C08", "Identifier texts round-trip and reject everything else",
  "Every article, paragraph, point, subpoint and act identifier has texts (plain, slashed, compact, Roman, Hungarian, serialized) that read back to the same identifier. "
  "Different identifiers of a kind never share a text, and texts that denote no identifier (overflowing numbers, unknown suffixes, stray characters, malformed Roman numerals) are refused rather than read as some other identifier.",
  ["inputs"], "all identifiers of each kind and all strings",
  "Unit tests sample a few dozen identifiers and malformed texts.",
  ["src/identifier/numeric.rs", "src/identifier/article.rs", "src/identifier/alphabetic.rs", "src/identifier/prefixed_alphabetic.rs", "src/identifier/paragraph.rs", "src/identifier/act.rs", "src/identifier/range.rs"],
  [("parsers and printers of each identifier kind", "src/identifier/")],
  "runtime monitoring: exhaustive and random identifiers against an independent reference grammar",
  "Small identifier domains are enumerated, large ones sampled; each text is judged by an independent grammar.")

p("C09", "Identifier order and succession agree with Hungarian numbering",
  "Identifiers of a kind are totally ordered in document order, and one identifier is the successor of another only if it is greater and nothing that may stand between them is skipped: the next number, the next letter of the Hungarian alphabet used in numbering, a first inserted number, or the first article of the next book. "
  "Succession is never circular (nothing at the end of a range is followed by its beginning) and first means first in document order.",
  ["inputs"], "all pairs and triples of identifiers of each kind",
  "Unit tests sample a few pairs; order laws quantify over all pairs and triples.",
  ["src/identifier/numeric.rs", "src/identifier/article.rs", "src/identifier/alphabetic.rs", "src/identifier/prefixed_alphabetic.rs", "src/identifier/paragraph.rs", "src/identifier/range.rs"],
  [("succession and first predicates", "src/identifier/"), ("derived orders", "src/identifier/")],
  "runtime monitoring: enumerated pairs/triples judged by a reference model of the numbering",
  "All pairs of small domains and boundary-heavy samples of large ones against a reference model.")

p("C10", "Hungarian numerals, dates and structural headers read back exactly",
  "Every ordinal in words, every Roman numeral, every printed date and every header of a book, part, title, chapter or subtitle reads as the number or date it denotes, and what is printed for a number reads back as that number. "
  "Words, numerals and dates that denote nothing are refused.",
  ["inputs"], "all numbers, calendar days and header texts, in any letter case the gazette uses",
  "Tests sample a few numerals and dates.",
  ["src/util/hun_str.rs", "src/structure.rs", "src/identifier/numeric.rs", "src/parser/structure/structural_element.rs"],
  [("Hungarian string conversions", "src/util/hun_str.rs"), ("header strings", "src/structure.rs")],
  "runtime monitoring: enumeration of numbers and days against an independent reference speller",
  "Numbers and all days of several centuries are enumerated; malformed texts are sampled.")

p("C11", "Only well-formed references can exist",
  "However a reference is obtained (built up, read from a text, loaded from stored data, combined, ranged or made relative), it denotes a contiguous path of an act: no part without the parts it depends on (only the paragraph may be left out, meaning the single unnumbered one), and a range only as its last part. "
  "Anything else is refused with an error.",
  ["inputs", "histories"], "all part combinations, all stored texts and all sequences of building operations",
  "Unit tests try selected combinations.",
  ["src/reference/builder.rs", "src/reference/unchecked.rs", "src/reference/mod.rs", "src/reference/string.rs"],
  [("validation of unchecked references", "src/reference/unchecked.rs"), ("builder", "src/reference/builder.rs")],
  "runtime monitoring: reference validity model checked on every reference produced by random operation histories",
  "All small part combinations plus random histories, each result judged by a validity model.")

p("C12", "Reference texts identify the reference",
  "The compact text and the stored form of every reference read back to exactly that reference, different references have different compact texts, and text that is not a reference is refused. "
  "The human-readable text names exactly the parts of the reference, in the Hungarian wording, from the act down to the subpoint.",
  ["inputs"], "all references and all strings",
  "Unit tests sample a few dozen references.",
  ["src/reference/string.rs", "src/reference/unchecked.rs", "src/reference/parts.rs"],
  [("compact string reader and writer", "src/reference/string.rs"), ("display text", "src/reference/string.rs")],
  "runtime monitoring: round-trip and injectivity oracles plus an independent speller over random references",
  "Random references of every shape are written and read back; hostile texts are judged by a reference grammar.")

p("C13", "Containment, ancestry, order and resolution of references are consistent",
  "Containment of references is reflexive and transitive and means that every element denoted by the second is denoted by the first; the parent of a reference contains it, ancestry holds exactly between a reference and the elements strictly inside it, and the order of references is total and follows document order. "
  "Resolving a relative reference against a position keeps the parts it names and takes the rest from the position, and the ends of a range lie within it and build it again.",
  ["inputs"], "all pairs and triples of references",
  "Unit tests sample selected pairs.",
  ["src/reference/mod.rs", "src/identifier/range.rs", "src/reference/parts.rs", "src/reference/structural.rs"],
  [("containment, parent, relative resolution", "src/reference/mod.rs"), ("range containment", "src/identifier/range.rs")],
  "runtime monitoring: set-of-paths denotation model over random reference pairs and triples",
  "A denotational model (sets of element paths) decides containment, ancestry and resolution on each sampled tuple.")

p("C14", "Walking an act visits every element once, in order, at its true position",
  "Walking an act enters every paragraph, point and subpoint of its articles exactly once, in document order and parents before children, and leaves each one after its children; quoted blocks and amendments are not entered. "
  "Each visit gets the reference that denotes exactly that element, the mutable walk sees the same sequence and its changes land on the visited elements only, and an error of the visitor stops the walk at once and is reported.",
  ["inputs", "histories"], "every act tree and every visitor, including failing ones",
  "Two fixed trees are walked in tests.",
  ["src/util/walker.rs", "src/reference/to_element.rs", "src/structure.rs"],
  [("visitor traversal", "src/util/walker.rs"), ("element references", "src/reference/to_element.rs")],
  "runtime monitoring: visit event log of real walks checked against an independent traversal of the tree",
  "The event log (enter/exit, position, identity) of each walk is compared with a reference traversal, with faults injected at each visit.")

p("C15", "Cutting and joining positioned lines keeps text and positions",
  "Any slice of a line contains exactly the characters between its ends (negative and out-of-range ends included), each at its original position and boldness; gluing the pieces of a line gives the line back; an empty slice is an empty line. "
  "Joining lines concatenates their texts with one space, except after a line-end hyphen where no space is put unless the next line continues with a conjunction.",
  ["inputs"], "all lines, cut points and line sequences",
  "Unit tests cut a few fixed lines.",
  ["src/util/indentedline.rs"],
  [("slicing and gluing", "src/util/indentedline.rs"), ("joining rule", "src/util/indentedline.rs")],
  "runtime monitoring: reference line model compared with the real line after every operation",
  "Lines are cut at every (short) or sampled (long) index pair, glued and joined; each observable is compared with the model.")

p("C16", "Acts survive being stored and loaded",
  "Every act, whatever its content, written as JSON or YAML loads back equal to the original, down to each text, identifier, quoted line, reference, amendment announcement, date and change record; optional parts that are absent stay absent. "
  "The stored text is valid JSON or YAML whatever characters the texts contain.",
  ["inputs"], "every act tree with every optional part, and every text content",
  "No test serializes generated acts; only fixed documents are compared with stored YAML.",
  ["src/structure.rs", "src/semantic_info.rs", "src/util/singleton_yaml.rs", "src/output/mod.rs", "src/util/indentedline.rs"],
  [("serde derives and defaults", "src/structure.rs"), ("singleton map YAML", "src/util/singleton_yaml.rs")],
  "runtime monitoring: round-trip oracle over random acts with every optional part and hostile strings",
  "Random acts (all element kinds, semantic info, hostile texts) are stored and loaded through the real output path.")

p("C17", "Text output shows the whole act at any width, colour or not",
  "The text output of any act contains every heading, identifier and text of the act, in document order and nothing else, whatever the width; the coloured output is the plain output plus colour codes only. "
  "Lines are wrapped only at word boundaries and are not longer than the width where the words permit it; every element starts on its own line (a first child may follow its parent's header), indented by its depth, headings are set apart by empty lines, and with highlighting exactly the referencing text is coloured.",
  ["inputs", "configurations"], "every act and every width",
  "No test renders generated acts or small widths.",
  ["src/output/text.rs", "src/output/mod.rs"],
  [("wrapping and indentation", "src/output/text.rs"), ("reference colouring", "src/output/text.rs")],
  "runtime monitoring: conservation oracle on rendered text, plain/coloured differential oracle over random acts and widths",
  "Random acts are rendered at random widths including tiny ones; word conservation, colour stripping and width are checked.")

p("C18", "Line dumps show every line and can be read back",
  "The tagged text dump of pages and raw acts has one line per line, in order, from which text, boldness, right-justification and position (to the printed column) can be read back; the untagged dump shows exactly the text at its column. "
  "Page headers count the pages correctly, and a raw act shows its identifier, subject and date.",
  ["inputs"], "all lines and sequences of pages",
  "Tests compare a few dumps.",
  ["src/output/mod.rs", "src/util/indentedline.rs"],
  [("line display", "src/output/mod.rs"), ("test notation reader", "src/util/indentedline.rs")],
  "runtime monitoring: dump/read-back oracle over random lines, pages and raw acts",
  "Random lines are dumped by the real code and read back.")

p("C19", "A fixup changes exactly the line it names",
  "Applying a fixup replaces the text of the one line matching its old text and context, keeps that line's unchanged beginning and end in place, and leaves every other line untouched; a fixup that matches no line, several lines, or changes nothing is refused and nothing is modified. "
  "Stored fixups load back unchanged and in order, are applied in order, and acts without stored fixups have none.",
  ["inputs", "histories"], "all bodies, including repeated lines, and all fixups and sequences of them",
  "Unit tests apply a few fixups to one short body.",
  ["src/fixups.rs"],
  [("context matching", "src/fixups.rs"), ("replacement positions", "src/fixups.rs"), ("load and save", "src/fixups.rs")],
  "runtime monitoring: before/after state oracle over random bodies and fixups, storage round trips",
  "Random bodies with repeated lines and applicable, ambiguous, missing or useless fixups; all lines are compared before and after.")

p("C20", "What is typed in the fixup editor is what gets applied",
  "After an editing session, applying the stored fixups to the original body gives exactly the lines as they were left in the editor, over any number of sessions; lines not edited stay untouched. "
  "A session that cannot be stored (lines added or removed, no unique context) is refused without changing the stored fixups, the editor is shown every line with its quotation level and opened at the first problem, and no edit makes the session crash.",
  ["inputs", "histories"], "all bodies, edits, editor habits (stripped blanks, line ends) and sequences of sessions",
  "Unit tests cover the context search on a few bodies; sessions are not tested.",
  ["src/bin/hun_law/fixup_editor.rs", "src/fixups.rs"],
  [("context search", "src/bin/hun_law/fixup_editor.rs"), ("editor file format", "src/bin/hun_law/fixup_editor.rs")],
  "runtime monitoring: scripted stand-in editor, session histories, replay oracle over the stored fixups",
  "Histories of editing sessions through a scripted editor; the stored fixups are replayed on the original body after each session.")

p("C21", "Downloaded issues are cached once and served from the cache",
  "An issue that is in the cache is returned from it byte for byte without any network access; one that is not is downloaded once, from the address of exactly that issue, returned and stored so that the next request returns the same bytes. "
  "A failed or interrupted download leaves nothing in the cache that would be served later, concurrent requests never see a partly stored issue, and different issues never share a cache entry nor (within a century) an address. Issue designations (YEAR/ISSUE) are read exactly or refused.",
  ["histories", "fault_sequences", "schedules", "inputs"], "all sequences and interleavings of requests for issues, all server answers (errors, empty and truncated bodies), write failure or process death at any byte stored",
  "Nothing in the repository tests the downloader.",
  ["src/mk_downloader.rs"],
  [("cache lookup and store", "src/mk_downloader.rs"), ("cache key and address", "src/mk_downloader.rs")],
  "runtime monitoring: loopback stand-in server with fault injection, request log checked against a cache model",
  "Random request histories against a scripted loopback server (reached through name-resolution and connect stand-ins); every request the server sees and every byte stored is checked.")

p("C22", "Hostile input gives an error, not a crash",
  "No input makes the reader crash, hang or overflow its stack: damaged or adversarial PDFs, issues, acts, quotations, stored files and texts are either processed or refused with an error. "
  "(Crashes inside third-party libraries are not counted.)",
  ["inputs"], "all byte strings as PDFs, all line sequences, all texts",
  "Tests only use well-formed documents.",
  ["src/parser/pdf/page.rs", "src/parser/structure/sae.rs", "src/parser/structure/article.rs", "src/parser/structure/block_amendment.rs", "src/util/indentedline.rs", "src/parser/mk_act_section.rs"],
  [("error returns", "src/parser/"), ("index conversions", "src/util/indentedline.rs")],
  "runtime monitoring: panic, overflow and stack monitors over mutated and adversarial inputs",
  "Mutated real inputs and adversarial constructions run under overflow checks with every panic attributed to its source.")

p("C23", "Processing is memory-safe",
  "Reading, parsing, storing and printing never touch invalid, freed or foreign memory and never produce text that is not valid Unicode, whatever the input.",
  ["inputs"], "all inputs of the pipeline",
  "Tests run without any memory checking.",
  ["src/util/singleton_yaml.rs", "src/parser/pdf/font.rs", "src/parser/pdf/mod.rs"],
  [("unchecked string conversion", "src/util/singleton_yaml.rs"), ("address-keyed font cache", "src/parser/pdf/font.rs")],
  "sanitizer: AddressSanitizer build of the library and its dependencies under the workloads of the other checks",
  "The workloads of the PDF, structure, output and storage checks run in an AddressSanitizer build; any report is a violation.")

p("C25", "A printed issue becomes its acts, end to end",
  "Reading the PDF of a gazette issue, cutting it into acts, applying the stored fixups, parsing the structure, storing and loading gives exactly the acts that were printed: same numbers, subjects, date, structure and texts, with misprints corrected as the fixups say. "
  "Running page headers outside the crop box, page breaks, fonts and the order of drawing leave no trace.",
  ["inputs", "histories"], "every issue of well-formed acts, every pagination at gaps and every way of drawing it",
  "No test runs more than one stage; assumptions one stage makes of another (gaps, columns, boldness, line ends) are never exercised together.",
  ["src/parser/pdf/", "src/parser/mk_act_section.rs", "src/fixups.rs", "src/parser/structure/", "src/structure.rs", "src/mk_downloader.rs"],
  [("the pipeline of stages", "src/")],
  "runtime monitoring: generated acts printed as PDF issues, whole pipeline executed, tree equality oracle",
  "Random acts are typeset, paginated, drawn as PDF and taken through the whole pipeline; the resulting trees must equal the generated ones.")

p("C26", "Articles are looked up and elements judged empty exactly",
  "Looking up an article of an act by its identifier gives exactly the first article with that identifier (book, number and suffix all matching), or nothing if there is none; listing the articles gives all of them, in order, and nothing else. Changes made through mutable access land on that article and change nothing else. "
  "An element of the structure is reported empty exactly if its text is empty, or, for one with children, if every child is empty, recursively; a list of quoted blocks, and a structural amendment, are empty exactly if they hold nothing.",
  ["inputs"], "all acts, all identifiers (also near misses), all elements however deeply nested",
  "The repository has no test of these functions at all.",
  ["src/structure.rs"],
  [("Act::articles, article, articles_mut, article_mut", "src/structure.rs"), ("is_empty of the elements", "src/structure.rs")],
  "runtime monitoring: random trees, lookup and mutation compared with an independent walk of the tree, pointer identity and deep equality oracle",
  "Random acts with colliding and near-colliding article identifiers, every article and near misses looked up; random elements with blank texts at random depths judged against an own recursion.")

p("C24", "References and special phrases in legal text are recognised exactly",
  "In a text in the supported phrasing every citation of an act or of its parts is found with its exact extent and meaning (lists, ranges, books, context carried on from the part before, abbreviations known or introduced in the text; the longest abbreviation that is written is meant), nothing is cited by look-alikes and quotations, and amending, repealing and entry-into-force phrases are recognised with their exact meaning. "
  "In a whole act the intro and the closing text are context for the points, positions always lie inside the text of the element, block amendments stay on intros and other phrases do not, abbreviations hold from their introduction on, and doing it again, or article by article, gives the same.",
  ["inputs", "histories"], "all legal texts in the supported phrasing, all acts built of them; any text for the positions",
  "Some two hundred fixed phrases, and these tests need a dependency that is not there.",
  ["src/parser/semantic_info/mod.rs", "src/parser/semantic_info/sae.rs", "src/parser/semantic_info/reference.rs", "hun_law_grammar/grammar.ebnf", "hun_law_grammar/src/lib.rs"],
  [("grammar", "hun_law_grammar/grammar.ebnf"), ("semantic extraction", "src/parser/semantic_info/")],
  "runtime monitoring: texts and acts composed from a model, executed through the repository's grammar and extraction code, model-equality oracle",
  "Texts composed from known citations and phrases, and acts composed of such texts, run through the real grammar (compiled by an own generator) and extraction; all references with positions, abbreviations and phrases must equal the composition.")

claimed = sys.argv[1].split(",") if len(sys.argv) > 1 else [x["id"] for x in P if not x["na"]]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({
            "id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["qtext"]},
            "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "hook_needed": None},
        }, ensure_ascii=False) + "\n")
m = {
    "version": 1,
    "setup_cmd": "bash tools/build.sh plain",
    "checks": [{
        "property": x["id"],
        "quick_cmd": f"./check.sh {x['id']}",
        "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {x['id']}",
        "technique": x["technique"], "level": x["level"], "level_note": x["note"] + COMMON_NOTE,
    } for x in P if x["id"] in claimed],
    "not_applicable": [{"property": x["id"], "reason": x["na"] or "check not built yet"} for x in P if x["id"] not in claimed],
    "notes": "No hooks in /repo were needed: every monitor observes the public API of the library, compiled from /repo's working tree through a symlinked view without the part that needs the missing peginator crate.",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

HOOKS = None
NOTES = ("All checks run ./check.sh <id>, which rebuilds the simulator from /repo's working tree (content hashed) "
         "and runs seeded simulations; replay a violation with target/debug/simdork replay <file>.")
DIR = "parser/src/tasks/directives/"
INC = [DIR + "includes/process_includes.rs", DIR + "includes/normalize_includes.rs", DIR + "includes/target.rs", "parser/src/lexer/root_lexer.rs", "parser/src/parser.rs"]

P("I01", "A document split over files converts like the same document in one piece",
  "Replacing any run of lines of a document by an include of a file that holds them (nested, selected by lines or tags, re-levelled by leveloffset, re-indented, in another encoding, with CRLF or without a final newline) leaves the converted output unchanged. Every file is requested exactly once, in document order and relative to the file naming it, and every problem is reported once, at the file and line it is in.",
  ["inputs", "histories", "fault_sequences"],
  "all documents, all ways of splitting them over files to any depth, all sequences of what storage delivers (buffer growth, encodings, line endings)",
  "The include tests convert a handful of two- or three-file documents; which lines sit in which file, what ends the file, and what surrounds the directive interact and cannot be sampled by hand.",
  INC,
  [("directive lines are replaced in the token stream by the included source", DIR + "includes/process_includes.rs"),
   ("stack of sources the lexer reads from", "parser/src/lexer/root_lexer.rs"),
   ("lines are read and paragraphs delimited across sources", "parser/src/parser.rs")],
  note="Seeded exploration: random documents over 13 block/inline features split into up to four levels of files; the oracle is the same code on the flattened document plus a reference preprocessor for reads, diagnostics and positions. Known finding tag-line-numbers is tolerated in diagnostics only.",
  technique="deterministic simulation of storage; metamorphic oracle (flattened document) + reference preprocessor")

P("I02", "A failing include is contained and reported, and never takes other content",
  "When reading an included file fails in any way (missing, I/O error, refused, undecodable bytes), the rest of the document converts exactly as if the directive's documented placeholder had been written in its place. Each failure is reported exactly once at the directive's file and line, an optional missing file is silent, and strict conversion refuses exactly the documents for which something is reported.",
  ["inputs", "fault_sequences", "histories"],
  "all documents split over files, all subsets of reads failing, all failure kinds, at every nesting depth",
  "Tests inject one failing include into a one-line document; they cannot cover combinations of failing and succeeding reads at every position of a document.",
  INC + [DIR + "includes/include_resolver.rs", "parser/src/diagnostic.rs"],
  [("placeholder for unresolved directives", DIR + "includes/process_includes.rs"),
   ("resolver error kinds", DIR + "includes/include_resolver.rs"),
   ("diagnostics collected or fatal in strict mode", "parser/src/diagnostic.rs")],
  level="fault_enumeration",
  note="Seeded exploration of fault plans over the same document trees as I01: each read may fail in one of eight ways; oracle is the same code on the document with placeholders written out, plus the exact diagnostics expected.",
  technique="deterministic simulation of storage with per-read fault injection; metamorphic oracle")

P("I03", "Include selection uses exactly the lines asked for",
  "An include with `lines`, `tag` or `tags` contributes exactly the lines its selector asks for, in order: line ranges, nested and repeated tag regions, wildcards and negations, without the tag directives themselves. Selected tags that are absent from the file or left open are each reported once; the same selection is made whatever bytes storage delivers (empty file, torn file, CRLF, no final newline).",
  ["inputs", "fault_sequences"],
  "all selectors, all tag structures, all prefixes and corruptions of the file storage may deliver",
  "Tests have a dozen fixed files with fixed selectors; selection is a function of the interplay of selector list and nesting structure, and of where a file is torn.",
  INC,
  [("lines/tags selected from the buffer storage filled", DIR + "includes/process_includes.rs"),
   ("buffer normalised (endings, trailing space) first", DIR + "includes/normalize_includes.rs")],
  level="fault_enumeration",
  note="Seeded exploration against a reference selector written from the AsciiDoc documentation; files are torn, emptied or changed between reads by the simulated storage.",
  technique="deterministic simulation of storage with torn/replaced contents; executable reference model of selection")

P("I04", "Bytes read from storage are decoded faithfully or the failure is reported",
  "Text included from a file in UTF-8 or UTF-16 (declared by an encoding attribute or by a byte order mark) converts exactly like the same text in plain UTF-8. Bytes that are not valid in the file's encoding are never replaced, dropped or partly used: the include fails, is reported once at its directive, and leaves its placeholder.",
  ["inputs", "fault_sequences"],
  "all texts, encodings, byte order marks, truncations and corruptions of what storage delivers, all buffer growth patterns",
  "Tests decode three well-formed fixtures; they do not truncate or corrupt a file at each byte.",
  [DIR + "includes/normalize_includes.rs", DIR + "includes/process_includes.rs"],
  [("decode and normalise an include buffer", DIR + "includes/normalize_includes.rs")],
  level="fault_enumeration",
  note="Seeded exploration: random texts, encodings, tears and bit corruption; oracle is an independent decoder plus conversion of the plain text.",
  technique="deterministic simulation of storage with corrupted/torn reads; reference decoder")

P("I05", "Include depth is bounded by nesting, and the conversion always ends",
  "Includes nest at most as deep as the limit the embedder or document configured (64 by default; an include's own `depth` can only tighten it), measured by nesting and not by how many files were read before. Beyond the limit the directive stays in the document and is reported at its file and line, so a conversion over cyclic or exploding include graphs performs exactly the reads within the limit and ends.",
  ["inputs", "histories"],
  "all include graphs (cyclic, diamond, self-including), all absolute and relative limits",
  "The tests have one recursion of one file; limits interact with siblings, cells and relative depths.",
  INC,
  [("max include depth", DIR + "includes/process_includes.rs"), ("stack of sources", "parser/src/lexer/root_lexer.rs")],
  note="Seeded exploration over random graphs (including AsciiDoc table cells) against a reference traversal that predicts every read and report.",
  technique="deterministic simulation of storage; reference traversal model predicting the read history")

P("I06", "Conditional regions keep exactly what the attributes in effect decide",
  "ifdef, ifndef and ifeval keep or drop exactly the lines between them and their matching endif, judged by the attribute values in effect at that point of the document, anywhere (paragraphs, verbatim blocks, included files, across torn or lost files). Files named inside a dropped region are never read; unclosed, unmatched and mismatched directives are each reported once where they stand.",
  ["inputs", "histories", "fault_sequences"],
  "all nestings of conditionals over all histories of attribute entries, all torn or missing included files",
  "Tests cover single conditionals over one attribute; nesting, history and include boundaries multiply.",
  [DIR + "ifdef.rs", DIR + "ifeval.rs", DIR + "mod.rs", "parser/src/parser.rs"],
  [("conditional stack", DIR + "mod.rs"), ("skipping to the matching endif", DIR + "ifdef.rs"), ("expression evaluation", DIR + "ifeval.rs")],
  level="fault_enumeration",
  note="Seeded exploration against a line-based reference preprocessor (text kept, reads made, diagnostics). `ifndef` with several names joined by `+` is not generated (see DESIGN.md).",
  technique="deterministic simulation of storage with torn/lost files; reference preprocessor model")

P("S01", "A document never makes the converter read more than its safe mode allows",
  "In secure mode nothing is read from storage or network; outside it a URI is only ever requested (by an include, image, icon or docinfo, however its target, directory attributes or redirecting attribute values are spelled) when the embedder set allow-uri-read, and every request carries the mode in force. A refused include is left as a link to its target. No attribute entry in the document or in an included file can change the mode, the permission or what they report, and in server and secure mode the document cannot make the host's directories appear in its output.",
  ["inputs", "histories", "configurations", "fault_sequences"],
  "all documents and included files, all four modes, all settings of allow-uri-read, all directories and target spellings, all storage replies",
  "Tests check one refused include and one refused image per mode; what a document can reach is decided by the combination of directories, attributes, nested files and element kinds.",
  [DIR + "includes/process_includes.rs", DIR + "includes/target.rs", "parser/src/tasks/image_data_uri.rs", "parser/src/tasks/docinfo.rs", "core/src/safe_mode.rs", "meta/src/job_attrs.rs"]
  if os.path.exists("/repo/parser/src/tasks/image_data_uri.rs") else INC,
  [("target resolution and gating", DIR + "includes/target.rs"), ("include processing", DIR + "includes/process_includes.rs")],
  level="fault_enumeration",
  note="Seeded exploration: documents built from every element that can name a target, over a simulated storage and network on which everything exists unless a fault is planned; each storage call and the output are judged against the mode.",
  technique="deterministic simulation of storage and network with fault injection; invariant over every storage request")

P("E01", "Docinfo files are embedded where, and only if, they are asked for",
  "Of the six docinfo files exactly those the docinfo attributes select are requested, in the directory, with the name and suffix the document asks for, once each and never in secure mode; their text, decoded and after exactly the substitutions docinfosubs names, is inserted at the end of head, after the body's start and before its end, shared before private. A file that is missing, fails or cannot be decoded is skipped silently and takes nothing else with it.",
  ["inputs", "configurations", "fault_sequences"],
  "all docinfo selections, directories, substitutions and missing-attribute policies, all subsets of the files failing, all encodings and tears",
  "Tests read at most two well-formed files at a time.",
  ["parser/src/parser.rs"],
  [("docinfo read with the document header", "parser/src/parser.rs")],
  level="fault_enumeration",
  note="Seeded exploration against a reference selection and substitution; line breaks inside a docinfo file are a known finding and compared only if kept.",
  technique="deterministic simulation of storage with per-file faults; reference model of selection, substitution and placement")

P("E02", "Embedded images hold exactly the bytes storage delivered",
  "While data-uri is set, every image, and every admonition icon shown as an image, embeds exactly the bytes of the file its link would have named (resolved by imagesdir or iconsdir as in effect there), read once; images with the inline option embed the svg markup with only its root element re-dimensioned. A file that cannot be read or decoded leaves its placeholder, is reported once at the file and line of its reference, and changes nothing else; references that are not rendered as embedded images are never read.",
  ["inputs", "histories", "fault_sequences"],
  "all documents with image references in any position (blocks, cells, lists, titles, included files), all histories of the attributes that steer embedding, all file contents, all subsets of reads failing",
  "Tests embed one or two small images at the top level of a document.",
  ["parser/src/tasks/parse_image_block.rs", "parser/src/base64.rs", "backend/src/html/backend.rs", "eval/src/eval.rs"],
  [("image and icon bytes read and encoded", "parser/src/tasks/parse_image_block.rs"), ("embedding rendered", "backend/src/html/backend.rs")],
  level="fault_enumeration",
  note="Seeded exploration: the document is also converted with embedding off and each link replaced by a reference encoding of what storage delivered. Extension-less targets are not generated.",
  technique="deterministic simulation of storage with per-file faults; metamorphic oracle with a reference encoder")

P("C01", "The CLI delivers its whole output, or admits that it did not",
  "When the CLI exits with status 0, exactly the document it converted is in the output file or on standard output, whatever short or interrupted writes delivered it and whether or not a formatter is used. If any part of it could not be written (full disk, closed pipe, file that cannot be created, failing formatter) the exit status is not 0, and what has been written is a prefix of the output. An existing output file is only touched when the conversion succeeded.",
  ["inputs", "fault_sequences"],
  "all documents and options, all sequences of failing, short and interrupted writes to every descriptor",
  "The CLI's tests run the binary on healthy descriptors; no test lets a write fail.",
  ["cli/src/main.rs", "cli/src/args.rs"],
  [("output written to file or stdout", "cli/src/main.rs"), ("formatter process", "cli/src/main.rs")],
  level="fault_enumeration",
  note="Seeded exploration of the real binary under a preloaded system call seam; oracle is the library's conversion and the faults that were reached. Pipes to a formatter are real.",
  technique="deterministic simulation of the process's system calls with injected write faults; refinement against the library")

P("C02", "The CLI reads its whole input, or admits that it did not",
  "The document given as file, through a link or on standard input is converted exactly as the bytes that storage delivers, however they are split over reads and whichever reads are interrupted; includes are read relative to it. A main document that cannot be read completely or decoded is an error with a non-zero status and no output; an included file that cannot be read leaves its placeholder and takes nothing else.",
  ["inputs", "fault_sequences"],
  "all documents over any number of files, all sequences of failing, short and interrupted reads, opens and path resolutions, files that shrink while read",
  "The CLI's tests read intact files once.",
  ["cli/src/main.rs", "cli/src/resolver.rs", "cli/src/args.rs"],
  [("main input", "cli/src/main.rs"), ("includes resolved and read", "cli/src/resolver.rs")],
  level="fault_enumeration",
  note="Seeded exploration of the real binary under a preloaded system call seam; oracle is the library over a storage model with the faults that were reached.",
  technique="deterministic simulation of the process's system calls with injected read faults; refinement against the library")

P("C03", "The CLI includes over HTTP what the server sent, or reports that it could not",
  "With allow-uri-read, an include or image over HTTP contributes exactly the body of the response that ended a chain of redirects successfully, each named document being requested once and in order. A failing name resolution, connection, status, redirect or transfer (a body shorter than announced, a reset) is reported and leaves the placeholder: error pages and truncated bodies never become part of the document. Without the permission no connection is ever made.",
  ["inputs", "fault_sequences", "configurations"],
  "all documents naming several URLs, all sequences of network faults, response framings, cut positions and redirect chains",
  "The CLI's network tests need a live internet connection and fetch one file each.",
  ["cli/src/resolver.rs", DIR + "includes/process_includes.rs"],
  [("http client", "cli/src/resolver.rs")],
  level="fault_enumeration",
  note="Seeded exploration of the real binary and its HTTP client over a simulated network. A cut the client's library cannot notice is the known finding http-unnoticed-cut and is tolerated only where it applies. https is not simulated.",
  technique="deterministic simulation of the network (name resolution, connections, servers) with fault injection; refinement against the library")

P("C04", "Every problem reaches the user: strict reports are complete and machine readable",
  "With --strict the CLI fails exactly when the conversion has something to report, and standard error then carries every diagnostic of the document (includes and their failures among them) once, with file, line, column and source text; with --json-errors as one well-formed JSON document whatever the text, paths and messages contain. If a report cannot be written the exit status still tells, and warnings never end up within the converted output.",
  ["inputs", "fault_sequences"],
  "all documents with several problems over several files, all failing and short writes to standard error, all characters in paths and sources",
  "Tests print one diagnostic of one file.",
  ["cli/src/main.rs", "cli/src/error.rs"] if os.path.exists("/repo/cli/src/error.rs") else ["cli/src/main.rs"],
  [("diagnostics printed", "cli/src/main.rs")],
  level="fault_enumeration",
  note="Seeded exploration of the real binary; the list of diagnostics is compared with the library's, whose content other properties decide.",
  technique="deterministic simulation of the process's system calls; refinement of reports against the library")

P("C05", "Output depends on the clock only where the document asks for it",
  "Converting the same inputs at any time, in any time zone, with any file modification time and any random seed gives the same output, except for the values of the documented date and time attributes, which are exactly the start of the conversion and the modification time of the main file (or what the job set explicitly), formatted consistently with each other. The clock stepping or jumping during the conversion, standing before 1970 or in the far future neither crashes it nor mixes two instants.",
  ["inputs", "schedules"],
  "all documents, clock readings, steps, time zones, modification times and hash seeds",
  "Tests pass one fixed timestamp or do not look at dates at all.",
  ["parser/src/parser.rs", "cli/src/main.rs", "backend/src/time.rs"],
  [("date and time attributes", "backend/src/time.rs"), ("clock and mtime read", "cli/src/main.rs")],
  level="fault_enumeration",
  note="Seeded exploration of the real binary under simulated clock, zone, mtime and randomness against a reference calendar. Known finding revdate-incomplete is tolerated for incomplete revision dates only.",
  technique="deterministic simulation of clock, time zone and randomness with skew and jumps; reference calendar + differential runs")

P("W01", "The wasm entry point always answers with one well-formed, faithful JSON reply",
  "Whatever the document, the reply of the WebAssembly conversion is a single well-formed JSON object: on success its html decodes to exactly what the library converts, on failure its errors decode to exactly the library's diagnostics in order with their positions. The reply does not depend on earlier conversions of the same instance.",
  ["inputs", "histories"],
  "all documents (control characters, quotes, non-ASCII in text and sources) and all histories of calls",
  "The crate has no tests; JSON is assembled by hand from document text.",
  ["dr-html-wasm/src/lib.rs"],
  [("reply assembled", "dr-html-wasm/src/lib.rs")],
  note="Seeded exploration of call histories against an independent JSON parser and the library.",
  technique="deterministic simulation of call histories; refinement against the library with an independent decoder")

P("S02", "The CLI opens nothing outside the base directory that the mode confines it to",
  "In safe and server mode no include, image or docinfo makes the CLI open a file outside its base directory (the given one, else the directory of the input, else the working directory), however targets, directories or attribute values spell the path, through whatever links, and even if links change while it runs; a stylesheet is confined to the working directory, and secure mode reads nothing but the input. Refused targets are left and reported like missing ones without revealing where links lead; whatever lies inside is delivered however it is spelled.",
  ["inputs", "configurations", "schedules", "fault_sequences"],
  "all documents, file trees with links, ways to name input and base directory, modes, and all moments at which links are retargeted",
  "Tests check one target outside the base directory; links and races between check and use are not tested at all.",
  ["cli/src/resolver.rs", "cli/src/css.rs", "cli/src/main.rs", DIR + "includes/target.rs", "core/src/path.rs"],
  [("containment check", "cli/src/resolver.rs"), ("stylesheet containment", "cli/src/css.rs"), ("base directory", "cli/src/main.rs")],
  level="fault_enumeration",
  note="Seeded exploration of the real binary over a scratch tree; every opened file is observed. Without races the output is also compared with the library over a reference resolver. Directories replaced by links during the run are out of scope.",
  technique="deterministic simulation of the process's system calls with link swaps between check and use; invariant over every open + refinement")

P("B01", "No document, however damaged, crashes or hangs the conversion",
  "Whatever text storage hands over as a document or as the files it includes (torn, with bytes lost, duplicated, moved or overwritten, any markup cut short anywhere, any size of number or depth of nesting within a few kB), in any doctype, safe mode and backend, the conversion ends in bounded time: with output, or with diagnostics. It never panics, overflows an integer or the stack, or loops.",
  ["inputs", "fault_sequences"],
  "all documents and included files, all sequences of damage done to them by storage, all doctypes, safe modes, backends and common attributes",
  "Tests convert well-formed snippets of one feature each; the crashes are in unfinished constructs meeting each other, the end of a line, of a file or of the document.",
  ["parser/src/parser.rs", "parser/src/line.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_inlines/mod.rs", "parser/src/tasks/parse_attr_list.rs", "parser/src/tasks/table/parse_table.rs", "eval/src/eval.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs"],
  [("blocks and inlines parsed by lookahead and unwrap", "parser/src/tasks/parse_inlines/mod.rs"),
   ("tokens of a line, consumed under assertions", "parser/src/line.rs"),
   ("locations computed across sources", "ast/src/source_location.rs")],
  level="fault_enumeration",
  note="Seeded exploration: documents made of the snippets of a corpus, of generated blocks and of token soup, split over files and damaged up to six times each by the simulated storage; debug assertions and overflow checks are on, every run has a step and time limit, a crashed or stuck worker is a violation with its seed.",
  technique="deterministic simulation of storage delivering damaged contents; crash/hang oracle with overflow checks")

P("L01", "Damaged text never silently takes the text after it along",
  "A paragraph that stands by itself between blank lines reaches the output, in its place, whatever damaged or unfinished markup precedes it in its file or in files included before it, unless that text is of a kind whose documented meaning is to hide or move what follows (comments, conditionals, tables, the inline doctype). Nor does the output ever show the converter's own internal markers (passthrough placeholders, escape sentinels).",
  ["inputs", "fault_sequences"],
  "all documents and included files, all sequences of damage, all positions of the observed paragraphs",
  "Tests look at the output of the construct they are about; nothing looks for what an unfinished construct did to the rest of the document.",
  ["parser/src/parser.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_list.rs", "parser/src/tasks/parse_book.rs", "parser/src/tasks/parse_section.rs", "parser/src/tasks/parse_doc_header.rs", "parser/src/tasks/parse_inlines/inline_preproc.rs", "eval/src/eval.rs"],
  [("lines read for a block but not part of it are restored", "parser/src/parser.rs"),
   ("blocks parsed until one is not found", "parser/src/tasks/parse_block.rs"),
   ("passthroughs replaced by placeholders", "parser/src/tasks/parse_inlines/inline_preproc.rs")],
  level="fault_enumeration",
  note="Seeded exploration over the damaged documents of B01, with named paragraphs planted after each damaged piece (in the main and in included files); the oracle is their presence and order in the output of both backends.",
  technique="deterministic simulation of storage delivering damaged contents; conservation oracle on planted paragraphs")

P("N01", "The form of line ends never shows in the output",
  "A document and the files it includes convert to the same output and the same reports (in the same places) whether each of their lines ends with a line feed or with carriage return and line feed, however the two are mixed between and within files, in well-formed and in damaged text alike. In particular no carriage return becomes part of a target, id, attribute value, verbatim line or delimiter.",
  ["inputs", "fault_sequences"],
  "all documents and included files without other carriage returns, all sequences of damage to them, all assignments of the two line ends to their lines",
  "Some tests have one CRLF variant of one construct; every lookahead to the end of a line is a place to get it wrong.",
  ["parser/src/lexer/source_lexer.rs", "parser/src/tasks/parse_inlines/mod.rs", "parser/src/tasks/table/parse_table.rs", DIR + "includes/normalize_includes.rs", "parser/src/line.rs"],
  [("main document normalised, newlines tokenised", "parser/src/lexer/source_lexer.rs"),
   ("included buffers normalised", DIR + "includes/normalize_includes.rs")],
  level="fault_enumeration",
  note="Seeded exploration over the damaged documents of B01: the same bytes are delivered with and without carriage returns; html and diagnostics are compared.",
  technique="deterministic simulation of storage delivering damaged contents with foreign line ends; metamorphic oracle")

P("V01", "Verbatim content comes out of its block exactly as it went in",
  "The lines between the delimiters of a listing, literal, fenced, source or pass block appear in the output in order, unchanged but for the escaping of `<`, `>` and `&` (none in a pass block), whatever they look like (markup, passthroughs, attribute references and entries, other delimiters, block attributes), whatever stands around the block (paragraphs, lists, sections, other blocks, with open formatting or passthroughs of their own), and also if all or part of the content or of the delimiters arrives from included files. Callouts and preprocessor directives excepted, nothing in them takes effect on the rest of the document.",
  ["inputs", "fault_sequences"],
  "all contents, all block kinds, all surroundings, all ways to spread them over files, failing includes among them",
  "Tests have verbatim blocks with a line or two of harmless content; the content is read by the same line and token machinery as markup and escapes it only where someone thought of it.",
  ["parser/src/parser.rs", "parser/src/line.rs", "parser/src/contiguous_lines.rs", "parser/src/substitutions.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_inlines/inline_preproc.rs", "parser/src/tasks/parse_inlines/mod.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs"],
  [("substitutions in effect for a block", "parser/src/substitutions.rs"),
   ("lines of a delimited block", "parser/src/tasks/parse_block.rs"),
   ("passthroughs preprocessed", "parser/src/tasks/parse_inlines/inline_preproc.rs")],
  level="fault_enumeration",
  note="Seeded exploration: generated content (snippets of the corpus and token soup, damaged) between generated surroundings, spread over files; the oracle is the content itself, escaped, found in the one pre element (or raw).",
  technique="deterministic simulation of storage delivering damaged contents; conservation oracle on the block's lines")

P("H01", "Text of a document never becomes markup of the page",
  "A `<`, `>` or `&` written in the text of a document (in paragraphs, titles, lists, cells, labels, macro texts, quotes, header lines, or anything that is shown as text because the construct around it is damaged or unfinished) reaches the page escaped. Only passthroughs (pass blocks and macros, `+++`, explicit subs), stem content, and the values of attributes the documentation defines as raw insert markup; no other construct, however torn, lets text be taken for an element.",
  ["inputs", "fault_sequences"],
  "all documents and included files without passthroughs, all sequences of damage, all positions of markup in text",
  "Tests check the escaping of one paragraph; every construct has its own code that writes text, and a path for text left over when the construct turns out not to be one.",
  ["parser/src/tasks/parse_inlines/mod.rs", "parser/src/substitutions.rs", "eval/src/eval.rs", "backend/src/html/backend.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs"],
  [("special characters become nodes of their own", "parser/src/tasks/parse_inlines/mod.rs"),
   ("nodes written", "dr-html-backend/src/asciidoctor_html.rs")],
  level="fault_enumeration",
  note="Seeded exploration over the damaged documents of B01 with an element of a unique name written at text positions; a start tag of that name in the output is a violation. Payloads are not put into attribute lists, targets, attribute values or passthroughs.",
  technique="deterministic simulation of storage delivering damaged contents; taint oracle on marked text")

P("T01", "Every page is well-formed",
  "Whatever document is converted, however damaged, torn or incomplete it arrives, and whatever attributes change on the way: every element of the page is written properly, every element is closed in the order it was opened and at the end all are, no block element is inside a paragraph, and the parts of a page (body, header, content, footer) exist once, outside of any table cell. Only passthroughs the author wrote can change that.",
  ["inputs", "fault_sequences", "histories"],
  "all documents and included files without passthroughs, all sequences of damage, all attribute entries and block attribute lines between any two lines, both backends, embedded or not",
  "Tests compare the page of well-formed snippets; opening and closing of an element are decided at different times by flags that nested blocks, missing parts, and attributes changed in between also set.",
  ["dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs", "backend/src/html/backend.rs", "backend/src/html/open_tag.rs", "eval/src/eval.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_list.rs", "parser/src/tasks/table/parse_table.rs"],
  [("elements opened and closed by the backends", "dr-html-backend/src/asciidoctor_html.rs"),
   ("order of visits", "eval/src/eval.rs"),
   ("state of a rendering", "backend/src/html/backend.rs")],
  level="fault_enumeration",
  note="Seeded exploration over the damaged, split documents of B01 without passthroughs, with attribute entries and block attribute lines inserted anywhere; the oracle is a scanner of the output that shares nothing with the code. Markup characters and quotes stay out of attribute lists, targets and attribute values (some are documented to be inserted as they are); an escaped arrow (\\<-) is not generated, its raw `<` is pinned by a unit test.",
  technique="deterministic simulation of storage delivering damaged contents; structural oracle on the page")

P("R01", "Conversions are repeatable and do not affect each other",
  "The output and the reports (their order included) of a conversion depend only on its document, job and what storage delivers: not on hash seeds, not on what the same thread or process converted before (nor how that ended), not on conversions running at the same time in other threads, however they interleave, nor on a conversion started by the embedder from within an include or while another is under way in the same thread.",
  ["schedules", "histories", "fault_sequences"],
  "all sets of conversions, all interleavings of them at their requests to storage, all hash seeds, all endings of earlier conversions",
  "Each test converts once, in a process whose hash seeds happen to be some; order and shared state only show across runs.",
  ["parser/src/parse_context.rs", "parser/src/parser.rs", "parser/src/tasks/diagnose_document.rs", "eval/src/eval.rs", "backend/src/html/backend.rs", "core/src/regx.rs"],
  [("diagnostics of references kept in hashed collections are sorted", "parser/src/tasks/diagnose_document.rs"),
   ("state shared between parsers by Rc", "parser/src/parse_context.rs"),
   ("state of a rendering", "backend/src/html/backend.rs")],
  level="fault_enumeration",
  note="Seeded exploration: up to four conversions (some damaged, some with failing storage) alone, one after another, nested, and in threads of which a seeded scheduler lets one run at a time, switching at requests to storage; each must equal the same conversion alone. Preemption between requests is not simulated (there is no shared mutable state besides lazily built constants).",
  technique="deterministic simulation of thread schedules at storage requests with injected faults; refinement to isolated conversions")

P("X01", "Numbers, ids and references count exactly what arrived",
  "Over whatever parts of a document arrive (included files may be missing, fail, be torn at a block, or be included twice): sections, parts and appendices are numbered in document order as sectnums, sectnumlevels and partnums in effect say; captioned blocks count per kind; every automatic id is the documented one and different from all other ids; footnotes are numbered in order of appearance, listed once, and reuse by id refers to the same number; a cross reference links to its target's id and shows its given text, else its reftext, else its title, else the bracketed id; a reference without target and a second anchor of the same id are each reported once, at their place. The table of contents lists exactly the sections that arrived down to toclevels, nested and numbered as they are, at the place asked for, and rendering it changes nothing else.",
  ["inputs", "fault_sequences", "histories"],
  "all section trees, labelled blocks, footnotes and references, all ways to spread them over files with leveloffset, all subsets of reads failing",
  "Tests number three sections or two figures of one literal document; counters, ids and references meet across sections, files and the table of contents.",
  ["parser/src/tasks/section_id.rs", "parser/src/tasks/parse_section.rs", "parser/src/tasks/anchors.rs", "parser/src/tasks/diagnose_document.rs", "parser/src/tasks/parse_block.rs", "eval/src/eval.rs", "backend/src/html/backend.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs"],
  [("ids generated", "parser/src/tasks/section_id.rs"),
   ("anchors registered", "parser/src/tasks/anchors.rs"),
   ("references checked at the end", "parser/src/tasks/diagnose_document.rs"),
   ("sections, captions and parts numbered", "backend/src/html/backend.rs"),
   ("references resolved, contents rendered", "eval/src/eval.rs")],
  level="fault_enumeration",
  note="Seeded exploration against a reference model of numbering, ids, captions, footnotes, references and contents, over generated articles and books whose files fail, are torn or repeat. Sections are never out of sequence, explicit section ids never repeat, sectnums only changes before top-level sections, and the only special sections are appendices; the contents are numbered by the attribute values at their own place.",
  technique="deterministic simulation of storage with per-read faults; reference model of labels over what arrived")

P("A01", "An attribute is what the entries before its place say",
  "Over whatever parts of a document arrive (included files may be missing, fail, be torn or be included twice): at any place, the value of an attribute is the one set by the last entry that arrived before that place; entries of the header hold for the whole document, those of the body from their own place, entries in an AsciiDoc table cell only in that cell. Readonly attributes of the job win over entries, modifiable ones override the defaults and are overridden by entries; an unset attribute is missing. References are replaced with the value at their own place (names in any case), in values of entries too, and only where attribute references are replaced; a missing one is kept, dropped, drops its line or is warned about once at its place as attribute-missing says. Names only the job or the header may set are refused with one report each, and nothing else is reported.",
  ["inputs", "fault_sequences", "histories"],
  "all sequences of entries and references, all ways to spread them over files and cells, all job attributes, all subsets of reads failing or torn",
  "Tests set one attribute and refer to it in the next line; precedence, scope and place only meet when entries, files, cells and job settings combine, and parts of them are lost.",
  ["core/src/document_meta.rs", "parser/src/tasks/attr_refs.rs", "parser/src/tasks/parse_doc_attrs.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/table/parse_table.rs"],
  [("values of attributes and their precedence", "core/src/document_meta.rs"),
   ("references replaced", "parser/src/tasks/attr_refs.rs"),
   ("entries read", "parser/src/tasks/parse_doc_attrs.rs"),
   ("scope of cells", "parser/src/tasks/table/parse_table.rs")],
  level="fault_enumeration",
  note="Seeded exploration against a reference model of attributes (job, defaults, header, body, cells) over generated documents whose files fail, are torn or repeat; values are read back from references in paragraphs, titles, lists, tables, macros, values of entries, passthroughs and verbatim blocks, in both backends. Two findings are listed as known.",
  technique="deterministic simulation of storage with per-read faults; reference model of attribute values over what arrived")

P("K01", "Callouts and the lists that explain them keep matching",
  "Over whatever parts of a document arrive (included files may be missing, fail, be torn or be included twice): callout numbers at the ends of lines of verbatim blocks, and only there, show as callouts with their explicit or automatic number, the comment mark in front of them (//, #, --, ;; or the line comment of the block) kept or dropped as the icon mode wants; all other text of the block, escaped numbers and numbers within lines included, stays text. A callout list shows its items with their numbers and refers to the callouts since the list before it, across cells, containers and included files; each item without callout or out of sequence is reported once, at its place, and nothing else is.",
  ["inputs", "fault_sequences", "histories"],
  "all sequences of verbatim blocks and callout lists, all ways to spread them over files, containers and cells, all subsets of reads failing or torn",
  "Tests have one block and its list; what a list refers to depends on the blocks and lists before it, in other files and cells, and on which of them arrived.",
  ["parser/src/parse_context.rs", "parser/src/tasks/parse_list.rs", "parser/src/tasks/parse_inlines/mod.rs", "parser/src/lexer/source_lexer.rs", "parser/src/line.rs", "dr-html-backend/src/asciidoctor_html.rs", "backend-html5s/src/html5s.rs"],
  [("callouts of the current list", "parser/src/parse_context.rs"),
   ("items matched with callouts", "parser/src/tasks/parse_list.rs"),
   ("callouts recognised", "parser/src/tasks/parse_inlines/mod.rs")],
  level="fault_enumeration",
  note="Seeded exploration against a reference model of callouts over generated documents whose files fail, are torn or repeat, in both backends with and without icons. A block numbered automatically always comes first after a callout list (what a second one counts from differs between implementations).",
  technique="deterministic simulation of storage with per-read faults; reference model of callouts over what arrived")

P("D01", "A torn document is converted up to the tear, and what it left open reported",
  "A document, or the last file it includes, that arrives torn (at any byte but within the line of a delimiter) is converted exactly as if each delimited block, table, comment block and skipped conditional region open at the tear had been closed there: the page is the same, in both backends. Each of these is reported exactly once, at its opening line in the file it is in, and besides them nothing is reported that would not be for the closed document. Text that arrived is shown where it stands, unless a comment or a skipped region hides it.",
  ["inputs", "crash_points"],
  "all documents, all ways to nest and include open blocks, all bytes at which a file may be torn",
  "Tests leave a single block open at the end of a literal snippet; what is open at an arbitrary byte, in which files and containers, with what hidden, only shows over all places to tear at.",
  ["parser/src/parser.rs", "parser/src/tasks/parse_block.rs", "parser/src/tasks/parse_list.rs", "parser/src/tasks/table/parse_table.rs", "parser/src/tasks/parse_doc_header.rs", "parser/src/tasks/directives/ifdef.rs"],
  [("blocks never closed", "parser/src/tasks/parse_block.rs"),
   ("tables never closed", "parser/src/tasks/table/parse_table.rs"),
   ("comment blocks in front of the header", "parser/src/tasks/parse_doc_header.rs"),
   ("regions skipped to the end", "parser/src/tasks/directives/ifdef.rs")],
  level="fault_enumeration",
  note="Seeded exploration: generated documents of nested blocks, tables, comments, conditionals and included files are torn by the simulated storage, and compared with the document closed at the tear. Left out: tears within a delimiter line or right after a list continuation, metadata lines at the tear (reported only at the end of a document), conditional regions that are shown (never reported, by design), trailing white space at the tear.",
  technique="deterministic simulation of storage delivering torn contents; metamorphic refinement to the closed document")

P("F01", "Inline formatting and blocks render as Asciidoctor renders them",
  "Every construct of the language (formatting marks, macros, blocks, lists, tables, substitutions in their documented order) yields the HTML Asciidoctor yields for it, apart from documented differences.",
  ["inputs"],
  "all documents",
  "Tests compare literal snippets.",
  ["parser/src/tasks/parse_inlines/mod.rs", "parser/src/lexer/root_lexer.rs", "dr-html-backend/src/asciidoctor_html.rs"],
  [("inline grammar", "parser/src/tasks/parse_inlines/mod.rs")],
  na="a pure function of a text in memory: no schedule, fault, clock, storage or history influences it, so simulation has nothing to decide, and no Asciidoctor is installed to compare with; what faults can break of it (losses, escapes, nesting, labels, verbatim contents) is decided by L01, H01, T01, X01 and V01")

P("F02", "Nodes of the syntax tree span the source they come from",
  "The location of every block and inline node in the syntax tree (and in the ASG made from it) covers exactly its source text, in the file it is from.",
  ["inputs"],
  "all documents",
  "Tests compare locations of literal snippets.",
  ["ast/src/node.rs", "tck/src/lib.rs", "parser/src/tasks/parse_inlines/mod.rs"],
  [("locations of nodes", "ast/src/source_location.rs")],
  na="a pure function of a text in memory that no output of the converter shows; the part users see across faults, the file and line of every report, is decided by I01-I06 and X01")

P("F03", "Pretty printing the HTML does not change its meaning",
  "The HTML written with formatting asked for has the meaning of the HTML written without.",
  ["inputs"],
  "all documents",
  "Tests format nothing.",
  ["cli/src/main.rs"],
  [("formatter is a child process", "cli/src/main.rs")],
  na="what is written is the output of another program (prettier), which is not part of this repository and not installed; that its failures are reported and its output arrives is decided by C01")

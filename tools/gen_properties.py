#!/usr/bin/env python3
"""Single source for properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))
TESTS = ("The stable tests exercise the low-level decoders on one or two literals each and one end-to-end 'is not empty' "
         "assertion; the end-to-end snapshot tests do not pass here, so ")
ENTRY = ["Parser::parse_section_buffer", "Parser::parse_section", "Parser::parse_notebook"]

p("C01", "No input makes the parser panic, abort or overflow the stack",
  "For every byte sequence handed to parse_section_buffer, parse_section or parse_notebook (and every tree of files a notebook table of contents leads to), the call returns Ok or Err: it never panics, aborts, trips an arithmetic-overflow or bounds check, or exhausts a default 2 MiB thread stack, however deeply or cyclically the file's objects and property sets refer to one another.",
  ["inputs"], "every byte string, including structurally valid files whose object graph, property values or nesting are hostile",
  TESTS + "no test feeds a damaged or adversarial file to the public entry points.",
  ["src/reader.rs", "src/fsshttpb", "src/onestore", "src/one", "src/onenote", "src/shared/multi_byte.rs"],
  [("bounds-checked reader", "src/reader.rs"), ("error propagation with Result", "src/errors.rs"), ("nesting limits", "src/onenote/outline.rs, src/onestore/types/prop_set.rs")], ENTRY)
p("C02", "Every parse terminates in CPU time bounded by the input size",
  "For every input, parsing finishes; the processor time it needs stays within a small polynomial of the input's size, so reference cycles (between revisions, table-of-contents entries or page objects) and huge declared counts cannot make it loop or spin.",
  ["inputs"], "every input of at most a few hundred KiB, including cyclic revision chains, cyclic object graphs and declared counts up to 2^64-1",
  TESTS + "no test contains a cycle or an inflated count, so non-termination cannot show.",
  ["src/onestore/object_space.rs", "src/onestore/revision.rs", "src/onenote/notebook.rs", "src/onenote/outline.rs", "src/fsshttpb/data/exguid.rs", "src/fsshttpb/data/cell_id.rs"],
  [("revision chain walk", "src/onestore/object_space.rs"), ("counted loops stop at end of data", "src/fsshttpb/data/exguid.rs, cell_id.rs, src/onestore/types")], ENTRY)
p("C03", "Memory use is bounded by the bytes actually present, not by declared sizes",
  "For every input, the peak heap memory of a parse is bounded by a constant factor of the input's length plus a constant; a length, count or offset field that promises more data than the file holds yields an error without a matching allocation.",
  ["inputs"], "every input, in particular every length, count and size field set to arbitrary values up to its maximum",
  TESTS + "allocation size is never observed by a test.",
  ["src/reader.rs", "src/fsshttpb/data/binary_item.rs", "src/fsshttpb/data_element", "src/onestore/types", "src/one/property_set/note_tag_container.rs", "src/one/property_set/text_run_data.rs"],
  [("length check before copying", "src/reader.rs"), ("vectors grow only as items are read", "src/fsshttpb/data/exguid.rs")], ENTRY)
p("C04", "Parsing is free of undefined behaviour",
  "No input, well-formed or hostile, makes the library or the code it calls read or write memory out of bounds, use freed or uninitialised memory, or otherwise execute undefined behaviour.",
  ["inputs"], "every input and every public accessor applied to the result",
  TESTS + "tests run without any memory checker.",
  ["src/reader.rs", "src/utils.rs", "src/shared", "src/onenote/ink.rs"],
  [("safe Rust only", "src"), ("dependencies: bytes, widestring, encoding_rs", "Cargo.toml")], ENTRY)
p("C05", "Parsing is deterministic and safe to share across threads",
  "The result of a parse (the value, or the error and its message) depends only on the bytes and the file name given: repeating it, running it on another thread, sharing one Parser between threads, or having parsed other files before never changes it. Parser and all result types can be sent to and shared between threads.",
  ["inputs", "schedules", "histories"], "all inputs, valid or not, all orders of parses on one Parser, all interleavings of concurrent parses",
  TESTS + "each sample is parsed once, on one thread.",
  ["src/onenote/mod.rs", "src/onestore/mod.rs", "src/fsshttpb/data_element/mod.rs", "src/fsshttpb/data_element/storage_index.rs"],
  [("stateless Parser", "src/onenote/mod.rs"), ("look-ups by id", "src/fsshttpb/data_element/mod.rs")], ENTRY)
p("C06", "A truncated file is always rejected as such",
  "Every proper prefix of a well-formed file that ends before its closing packaging marker is rejected with the 'Unexpected end of file' error; no truncated file yields a (partial) notebook or section, from memory or from disk.",
  ["inputs", "crash_points"], "every well-formed file cut at every byte position",
  TESTS + "no file is ever truncated in a test.",
  ["src/reader.rs", "src/fsshttpb/packaging.rs", "src/fsshttpb/data_element"],
  [("UnexpectedEof from every read", "src/reader.rs"), ("mandatory end markers", "src/fsshttpb/data/stream_object.rs")], ENTRY)
p("C07", "Structural corruption is reported, never silently accepted",
  "A file whose container structure is broken - a wrong, missing or misplaced stream-object header or end marker, an invalid id encoding, an unknown element type, format identifier or writer version, an illegal property type, a missing storage index, manifest, revision, object group, object declaration or blob that the content needs, or mismatching declaration/data/reference counts - is rejected with an error.",
  ["inputs"], "every well-formed file and every single structural fault injected at any place where it applies",
  TESTS + "only a few decoder-level faults are tested.",
  ["src/fsshttpb", "src/onestore"],
  [("typed header checks", "src/fsshttpb/data/stream_object.rs"), ("count checks", "src/onestore/object.rs, revision.rs"), ("look-ups with errors", "src/onestore/mod.rs")], ENTRY)
p("C08", "Reading from disk and from memory agree, however the OS delivers the bytes",
  "parse_section(path) returns exactly what parse_section_buffer(bytes of that file, file name) returns, apart from the display name's fallback to the path's final component, whatever the file size and even if the operating system returns the data in short or interrupted reads; a read error is returned as an I/O error.",
  ["inputs", "fault_sequences"], "all files and all sequences of short reads, EINTR and I/O errors",
  TESTS + "short reads and read errors never occur in the tests, and the two entry points are never compared.",
  ["src/onenote/mod.rs", "src/onenote/section.rs"],
  [("Parser::read", "src/onenote/mod.rs"), ("display name fallback", "src/onenote/section.rs")], ENTRY + ["read(2) results"])
p("C09", "Files of the wrong kind are told apart from damaged files",
  "A well-formed notebook table of contents given to a section entry point is rejected with the 'Not a section file' error naming the given path, a well-formed section given to parse_notebook with the 'Not a table of contents file' error naming the path, and any other schema with the same errors; a missing or unreadable file gives an I/O error, and correct files never give any of these.",
  ["inputs"], "all well-formed files of either kind and of unknown kinds, all paths",
  TESTS + "the error kinds are not asserted anywhere.",
  ["src/onenote/mod.rs", "src/errors.rs"], [("schema GUID check", "src/onenote/mod.rs")], ENTRY)
p("C10", "A notebook never makes the parser touch files outside its directory",
  "Whatever names a table of contents (or one in a nested section group) contains - absolute, with parent components, empty, or with control characters or any of the characters <>:\"|?* and backslash - and whatever symbolic links lie in the notebook's directory, parse_notebook only opens files inside the directory of the table of contents it was given; an entry that would lead elsewhere is rejected with an 'Invalid path' error.",
  ["inputs", "configurations"], "all entry names and all directory layouts including symbolic links to files and directories at every level",
  TESTS + "path resolution is tested on a handful of names and never with nested groups or links below them.",
  ["src/onenote/mod.rs"], [("resolve_entry_path", "src/onenote/mod.rs"), ("parse_section_group", "src/onenote/mod.rs")], ["open(2) calls of the process", "Parser::parse_notebook"])
p("C11", "Parsing never modifies the file system",
  "No parse creates, writes, renames, truncates or removes a file or directory, changes a mode or time stamp, starts a process or opens a network connection; files are only opened for reading and every descriptor is closed again before the call returns.",
  ["inputs", "histories"], "all inputs, successful or failing",
  TESTS + "no test observes system calls.",
  ["src/onenote/mod.rs"], [("File::open only", "src/onenote/mod.rs")], ["system calls of the process", "directory contents before/after", "open descriptors"])
p("C12", "A notebook lists exactly its table of contents, in order",
  "parse_notebook returns one entry per existing table-of-contents name, ordered by ordering id (ties keep file order, adjacent duplicates collapse), with '^M' and '^J' decoded to '+' and ',': a section for a file, a section group (with its directory name and its own entries, recursively) for a directory; entries that do not exist or are the recycle bin are left out, the notebook colour is the root's, a directory without a table of contents is an error and an error in any entry is returned.",
  ["inputs", "configurations"], "all tables of contents (any nesting of folder entries, ids, names) over all directory trees",
  TESTS + "only one fixed notebook is opened and its order and names are not asserted.",
  ["src/onenote/notebook.rs", "src/onenote/mod.rs", "src/one/property_set/toc_container.rs"],
  [("parse_toc", "src/onenote/notebook.rs"), ("entry filtering", "src/onenote/mod.rs")], ["Notebook::entries", "SectionGroup::entries"])
p("C13", "The result does not depend on how the same content is encoded",
  "Two files that represent the same objects are parsed to equal results regardless of representation choices: packaging variant and padding, width of compact integers, ids, serial numbers and headers, order of data elements, mappings and properties, grouping of objects, presence of unrelated elements, objects, metadata blocks or trailing bytes, and how ids are mapped.",
  ["inputs", "configurations"], "all documents and all legal encodings of each",
  TESTS + "each literal is decoded in one encoding; whole files only in OneNote's own encoding.",
  ["src/fsshttpb", "src/onestore"],
  [("compact u64 / ExGuid / header variants", "src/fsshttpb/data"), ("packaging variants", "src/fsshttpb/packaging.rs"), ("element maps", "src/fsshttpb/data_element/mod.rs")], ENTRY)
p("C14", "The newest revision of every object and root wins",
  "For an object space stored as a chain of revisions, the parsed content is that of the newest revision: an object, or a root, present in a newer revision replaces the one of the same identity in its base revisions, and anything a newer revision does not redefine is taken from the nearest base revision that has it, wherever the chain's members and object groups are stored and however they are looked up.",
  ["inputs", "histories"], "all revision chains of any length with any distribution of objects and roots over them",
  TESTS + "no test checks content across revisions.",
  ["src/onestore/object_space.rs", "src/onestore/revision.rs", "src/fsshttpb/data_element/mod.rs"],
  [("revision chain walk, first definition wins", "src/onestore/object_space.rs, revision.rs")], ENTRY)
p("C15", "Every reference resolves to exactly the object the file designates",
  "Each object, object-space or context reference of an object is resolved to the identity recorded for it in that object's own reference tables, whatever other reference-bearing properties (single, array, nested property sets) precede it, in whatever order, and even when several references share one compact id and are told apart only by position; no other object with the same role is substituted.",
  ["inputs"], "all objects with any mix and order of reference-bearing properties, nested sets, shared and ambiguous ids",
  TESTS + "reference resolution is only tested with one or two hand-made entries.",
  ["src/onestore/mapping_table.rs", "src/onestore/object.rs", "src/one/property/object_reference.rs", "src/one/property/object_space_reference.rs", "src/one/property_set/note_tag_container.rs", "src/one/property_set/text_run_data.rs"],
  [("reference offset counting", "src/one/property/references.rs, object_reference.rs"), ("MappingTable", "src/onestore/mapping_table.rs")], ENTRY)
p("C16", "Picture and file payloads are returned byte for byte",
  "The data of an image or embedded file is exactly the blob stored for its container object, of any length and content, never truncated, padded, re-encoded or swapped with another object's blob; a container without a blob yields empty data for a picture and an error for an embedded file.",
  ["inputs"], "all blob contents and lengths (including empty and larger than 64 KiB), any number of blobs, any sharing between containers",
  TESTS + "payload bytes are never compared.",
  ["src/onestore/object.rs", "src/fsshttpb/data_element/object_data_blob.rs", "src/one/property_set/picture_container.rs", "src/one/property_set/embedded_file_container.rs"],
  [("find_blob", "src/fsshttpb/data_element/mod.rs"), ("partition 2 lookup", "src/onestore/object.rs")], ["Image::data", "EmbeddedFile::data"])
p("C17", "Text is decoded faithfully",
  "Every text property is returned as exactly the characters stored: UTF-16LE up to the first NUL (including surrogate pairs and any BMP character), an unpaired surrogate is an error rather than altered text, and a paragraph without Unicode text falls back to its Latin-1 bytes; no character is lost, replaced, trimmed or normalised, whatever the length.",
  ["inputs"], "all strings in all text-valued properties",
  TESTS + "conversion is tested on a few ASCII literals.",
  ["src/utils.rs", "src/one/property/simple.rs", "src/one/property_set/rich_text_node.rs"],
  [("utf16_to_string", "src/utils.rs"), ("parse_ascii", "src/one/property/simple.rs")], ["RichText::text and every string accessor"])
p("C18", "Paragraph formatting and text runs are reported as stored",
  "For each paragraph the reported base style, text-run styles (in order and number), run boundaries, spacing, alignment and every style attribute (charset, bold, italic, underline, strikethrough, super/subscript, fonts, sizes, colours, language, style ids, math, hyperlink) equal the stored values, absent attributes take the documented default, and one style's values never leak into another's.",
  ["inputs"], "all paragraphs with any number of runs and any combination of style attributes, shared or not",
  TESTS + "no test looks at formatting.",
  ["src/onenote/rich_text.rs", "src/one/property_set/rich_text_node.rs", "src/one/property_set/paragraph_style_object.rs"],
  [("parse_rich_text", "src/onenote/rich_text.rs"), ("paragraph_style_object::parse", "src/one/property_set")], ["RichText", "ParagraphStyling"])
p("C19", "Outline structure and nesting are preserved",
  "Pages, outlines, outline groups and outline elements come back with exactly the stored children, in the stored order and nesting and with the stored level, indents, spacing, offsets, size limits and alignments: no item is dropped, duplicated, reordered or attached to another parent.",
  ["inputs"], "all outline trees up to the supported nesting depth, any mix of groups, elements and content",
  TESTS + "structure is never compared.",
  ["src/onenote/outline.rs", "src/onenote/page_content.rs", "src/onenote/content.rs", "src/one/property_set/outline_node.rs", "src/one/property_set/outline_element_node.rs", "src/one/property_set/outline_group.rs"],
  [("parse_outline and friends", "src/onenote/outline.rs")], ["Outline", "OutlineGroup", "OutlineElement", "Page::contents"])
p("C20", "List formatting is reported as stored",
  "Every list definition of an outline element is returned in order with its stored format characters (the leading length unit excluded, ill-formed UTF-16 shown as the replacement character), restart number (signed), fonts, size, colour, bold and italic, with absent values reported as absent; an element without lists has none.",
  ["inputs"], "all list definitions and all numbers of them per element",
  TESTS + "no test reads list definitions.",
  ["src/onenote/list.rs", "src/one/property_set/number_list_node.rs"], [("number_list_node::parse", "src/one/property_set")], ["OutlineElement::list_contents", "List"])
p("C21", "Tables keep their geometry and cell contents",
  "A table is returned with its stored row and column counts, rows and cells in stored order, every cell with all its contents (including nested tables), indents, width and background, the per-column widths and lock flags, border visibility (visible when not stored), alignments and tags.",
  ["inputs"], "all tables of any shape, including ragged and nested ones",
  TESTS + "no test reads a table.",
  ["src/onenote/table.rs", "src/one/property_set/table_node.rs", "src/one/property_set/table_row_node.rs", "src/one/property_set/table_cell_node.rs"],
  [("parse_table", "src/onenote/table.rs")], ["Table", "TableRow", "TableCell"])
p("C22", "Images and web embeds are reported as stored",
  "Each image reports its own stored data presence, extension, names, texts, language, sizes, offsets, page number, hyperlink, background flag, alignments, tags and web embeds (type and URL, in order), wherever on the page or in an outline it appears; values not stored are reported as absent and never taken from another field.",
  ["inputs"], "all images with any subset of properties present",
  TESTS + "no test reads an image.",
  ["src/onenote/image.rs", "src/onenote/iframe.rs", "src/one/property_set/image_node.rs", "src/one/property_set/iframe_node.rs", "src/one/property_set/picture_container.rs"],
  [("parse_image", "src/onenote/image.rs")], ["Image", "IFrame"])
p("C23", "Embedded files are reported as stored",
  "Each embedded file reports its own stored name, media type (unknown when not stored), payload, size limits, offsets and tags, wherever it appears; a missing container, name or payload is an error.",
  ["inputs"], "all embedded files with any subset of optional properties",
  TESTS + "no test reads an embedded file.",
  ["src/onenote/embedded_file.rs", "src/one/property_set/embedded_file_node.rs", "src/one/property_set/embedded_file_container.rs", "src/one/property/file_type.rs"],
  [("parse_embedded_file", "src/onenote/embedded_file.rs")], ["EmbeddedFile"])
p("C24", "Ink strokes and handwriting are reconstructed exactly",
  "Ink is returned with every stroke in order: its points are the stored X and Y values (any signed magnitude, X and Y picked by their dimension ids in whatever order and among whatever other dimensions) multiplied by the container's horizontal and vertical scale respectively, with the stroke's pen tip, transparency, height, width and colour, and the bounding box and offsets likewise; handwriting embedded in a paragraph (strokes, spaces, line breaks) is reported in run order with its own boxes, each linked to its own ink data.",
  ["inputs"], "all paths, dimensions, scales and bounding boxes, all sequences of embedded handwriting runs",
  TESTS + "only the multi-byte decoder has literal tests; nothing checks coordinates.",
  ["src/onenote/ink.rs", "src/shared/multi_byte.rs", "src/one/property_set/ink_container.rs", "src/one/property_set/ink_data_node.rs", "src/one/property_set/ink_stroke_node.rs", "src/one/property_set/stroke_properties_node.rs", "src/one/property_set/embedded_ink_container.rs"],
  [("parse_ink / parse_ink_path", "src/onenote/ink.rs"), ("embedded object matching", "src/onenote/rich_text.rs")], ["Ink", "InkStroke", "InkBoundingBox", "RichText::embedded_objects"])
p("C25", "Math inline objects are matched to their text runs",
  "A paragraph reports exactly one math object for each text run that is formatted as math and has run data, in run order, with the stored type, argument count, column, alignment and characters (defaults when not stored); other runs contribute none, and an undefined math type or character is an error.",
  ["inputs"], "all sequences of math and non-math runs with any subset of math properties",
  TESTS + "no test contains math.",
  ["src/onenote/math_inline_object.rs", "src/one/property_set/math_inline_object.rs", "src/one/property_set/text_run_data.rs", "src/onenote/rich_text.rs"],
  [("run data zip", "src/onenote/rich_text.rs"), ("MathObjectType", "src/onenote/math_inline_object.rs")], ["RichText::math_inline_objects", "MathInlineObject"])
p("C26", "Note tags carry their own definition and state",
  "Each tagged item (paragraph, table, image, embedded file) reports its tags in stored order, each with its own completion time, status flags and the definition it refers to - label, shape, colours, action type and property flags - even when several tags of one item refer to different definitions or to none.",
  ["inputs"], "all items with any number of tags and any assignment of definitions",
  TESTS + "no test reads a note tag.",
  ["src/onenote/note_tag.rs", "src/one/property_set/note_tag_container.rs", "src/one/property_set/note_tag_shared_definition_container.rs", "src/one/property/note_tag.rs", "src/one/property/note_tag_property_status.rs"],
  [("note_tag_container::Data::parse", "src/one/property_set/note_tag_container.rs")], ["note_tags() accessors", "NoteTag", "NoteTagDefinition"])
p("C27", "Section and page metadata are reported as stored",
  "A section reports its stored display name (or else the file's name) without the '.one' extension, its colour, and its page series and pages in stored order, each page from its own object space; a page reports its stored level, author, height and title (offsets, alignments, contents), and title_text is the first text of the title's first outline, or else of the first outline on the page that starts with non-empty text.",
  ["inputs"], "all sections, page orders and title shapes",
  TESTS + "metadata are not compared; only non-emptiness is.",
  ["src/onenote/section.rs", "src/onenote/page_series.rs", "src/onenote/page.rs", "src/one/property_set/page_node.rs", "src/one/property_set/page_metadata.rs", "src/one/property_set/title_node.rs", "src/one/property_set/section_metadata_node.rs"],
  [("parse_section", "src/onenote/section.rs"), ("parse_page", "src/onenote/page.rs")], ["Section", "PageSeries", "Page", "Title"])
p("C28", "Every encoded enumeration, flag set and colour decodes per its table",
  "For every value an encoded field can hold - layout alignments, paragraph alignment, charset, note-tag shape, action type, status bits, property-status bits, media type, math type, ink bias, page size, colours and colour references - the parser reports the variant the format's table assigns (with its checkable flag and components), or absence or the unknown variant where the format says so, and rejects undefined values with an error.",
  ["inputs"], "every value of every encoded enumeration, bit field and colour (exhaustively for small domains, boundary and random values for 32-bit ones)",
  TESTS + "a couple of values per decoder are tested at most.",
  ["src/one/property", "src/onenote/math_inline_object.rs", "src/one/property_set/ink_stroke_node.rs"],
  [("per-type parse tables", "src/one/property/*.rs")], ["enum-valued accessors"])
p("C29", "Unknown content and properties are tolerated without side effects",
  "Page or paragraph content of a known but unsupported type is reported as Unknown in its place without disturbing its siblings, unknown properties, unknown-typed unreferenced objects, fragments and extra cells are ignored, and content of an undefined object type is an error.",
  ["inputs"], "all documents with any additional unknown properties, objects, elements and content nodes anywhere",
  TESTS + "no test adds unknown content.",
  ["src/onenote/content.rs", "src/onenote/page_content.rs", "src/one/property_set/mod.rs", "src/onestore/types/prop_set.rs", "src/fsshttpb/data_element/data_element_fragment.rs"],
  [("Content::Unknown / PageContent::Unknown", "src/onenote"), ("properties looked up by id", "src/onestore/types/prop_set.rs")], ["Content", "PageContent"])
p("C30", "The command-line tool reports what the library parses",
  "onenote-parse prints the pretty-printed parse result of the given file (a notebook for .onetoc2, a section otherwise) and exits successfully exactly when the library returns Ok for it; on an error it prints no result, reports the library's error on standard error and exits unsuccessfully without crashing on a signal.",
  ["inputs", "configurations"], "all files and file names",
  TESTS + "the binary is never run by the tests.",
  ["src/bin"], [("main", "src/bin")], ["stdout, stderr and exit status of onenote-parse"])
p("C31", "The backtrace feature never changes what is parsed",
  "With the backtrace feature enabled the library returns the same values and the same error messages (and sources) as without it, for every input, and every error exposes a backtrace, captured if backtraces are enabled in the environment.",
  ["inputs", "configurations"], "all inputs, both feature settings",
  TESTS + "the tests are never built with the feature.",
  ["src/errors.rs", "src/lib.rs"], [("cfg(feature = \"backtrace\")", "src/errors.rs")], ENTRY)
p("C32", "Missing, dangling or ill-typed mandatory data is an error",
  "If an object that the content refers to is absent or of the wrong type, a mandatory property is missing, or a known property has a value of the wrong type or an undecodable value, the parse returns an error; it never substitutes a default, drops the item or returns another object's data.",
  ["inputs"], "every mandatory property and every known property of every object type, removed or retyped; every content reference left dangling or pointing at an object of another type",
  TESTS + "missing or ill-typed properties are not tested at all.",
  ["src/one/property/simple.rs", "src/one/property_set", "src/onenote"],
  [("ok_or_else on mandatory properties", "src/one/property_set"), ("assert_property_set", "src/one/property_set/mod.rs"), ("typed accessors", "src/onestore/types/property.rs")], ENTRY)
p("C33", "What a parse allocates is released with its result",
  "Once the value or the error returned by any entry point has been dropped, the process holds no more memory and no more threads than before the call, whatever the input; at most a small fixed amount is set up once per process, so a process that parses any number of files never grows.",
  ["inputs", "histories"], "all inputs, any number of calls, values and errors alike",
  TESTS + "no test looks at memory after a call.",
  ["src/onenote/mod.rs", "src/onestore", "src/fsshttpb"],
  [("file contents are read into a buffer", "src/onenote/mod.rs"), ("object spaces own their objects", "src/onestore/object_space.rs"), ("parse entry points", "src/onenote/mod.rs")], ENTRY)
with open(OUT, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

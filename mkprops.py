#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so statements stay in one readable place)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None)))

RD="structdoc.go structpara.go structrun.go structtext.go structlink.go structtable.go structdrawing.go structshape.go structeffects.go structsect.go structnum.go structcanvas.go structgroup.go".split()
p("C01","Attributes the library can write survive reading",
 "For every element type the library both reads and writes, each attribute it is able to write is, when present and non-empty in the input, read from the attribute of that same (local) name into the place it is written from, whatever other attributes surround it. The value is kept unchanged: text verbatim, numbers as their decimal value, never swapped, offset, scaled, truncated to a smaller type or dropped for particular values.",
 ["inputs"],"every element type, every attribute, every attribute value, in any order and combination",
 "The tests decode a handful of fixed snippets; most of the ~150 attribute slots are never set by any test, and none is set to an unusual value or in an unusual order.",
 RD,[("UnmarshalXML attribute switches","all struct*.go"),("xml struct tags used by encoding/xml when writing","all struct*.go"),("GetInt/GetInt64","helper.go")])
p("C02","Child elements the library can write survive reading",
 "For every element type the library both reads and writes, each child element it is able to write is, when it occurs in the input, kept in the place from which that same element name is written back, in every surrounding context. No child element is stored under another element's name, and no recognised child is dropped because of its attributes or content, apart from an absent or empty value of a pure value element. Where the library has a single place for a child, the last occurrence is kept.",
 ["inputs"],"every parent/child element pair the writer can emit, any content",
 "Tests cover a few parent/child pairs; the reader and the writer are two hand-kept tables (switches and struct tags) whose agreement no finite sample of documents establishes.",
 RD,[("UnmarshalXML element switches","all struct*.go"),("xml struct tags","all struct*.go")])
p("C03","Document order of content is preserved",
 "Reading keeps paragraphs, tables, section properties, runs, links, texts, tabs, breaks, rows, cells and drawings in the order in which they occur, and building calls put each new item after everything already in its container; each call adds exactly the item it returns, once. Nothing already in a container is removed, replaced, duplicated or moved by reading further or by an adding call.",
 ["inputs","histories"],"every input document and every sequence of adding calls",
 "Order and multiplicity hold per sequence; the tests look only at a few short sequences.",
 RD+["apipara.go","apitext.go","apilink.go","apidrawing.go","apishape.go","apitable.go","apirun.go","theme.go"],
 [("append at the tail of Items/Children/Paragraphs/TableRows/TableCells","struct*.go, api*.go")])
p("C04","Each element reader consumes exactly its own element",
 "When reading, every element's content belongs to that element alone: unknown content, text, comments or nested elements inside any element, known or not, are skipped or read as that element's own content. They are never mistaken for content of the enclosing element, never swallow what follows, and never make reading of a well-formed document fail.",
 ["inputs"],"every well-formed XML content of every element",
 "The failure needs unexpected nesting or whitespace in one of ~100 reader cases; the tests use compact, conventional XML.",
 RD,[("d.Token/d.Skip/d.DecodeElement pairing in every UnmarshalXML","struct*.go")])
p("C05","Damaged input is reported, not silently accepted",
 "If, while a document is being opened, the archive cannot be read, a part cannot be decompressed, the XML stream is malformed, or an attribute the library stores as a number is not a number, opening returns a non-nil error rather than a partially read document. Exempt are the numbers of a shape's text-body properties, which are read as best effort, failures to close what was read, and whatever follows the end of a part's root element.",
 ["inputs","fault_sequences"],"every fault position in every part, every ill-formed number",
 "Needs a fault at each of some 300 read sites; the tests inject none.",
 RD+["unpack.go","docx.go","helper.go"],[("err checks after Token/Skip/DecodeElement/GetInt/Open/ReadAll","struct*.go unpack.go")])
p("C06","Opening never panics on any input",
 "Opening a document from arbitrary bytes returns a document or an error and never panics: no nil dereference, no index or slice out of range, no failed type assertion, no write to a nil map, no division by zero in the library's own reading code.",
 ["inputs"],"every byte sequence offered as a document",
 "Quantifies over all inputs; tests use well-formed fixtures.",
 RD+["unpack.go","docx.go","media.go","helper.go"],[("guards in readers","struct*.go unpack.go")])
p("C07","No exported operation panics on a document that was read or built",
 "On any document obtained by opening a file or by building calls, the exported operations for rendering text, splitting, appending, merging, filtering, dropping, resizing, formatting and adding content never panic, whichever optional elements, properties, relationships or media are absent. Non-nil receivers, documents and callbacks, non-negative counts and non-nil items passed in are the caller's obligation.",
 ["inputs","histories"],"every document and every sequence of exported calls on it",
 "Each optional part may be absent independently; the tests only use complete documents.",
 ["structdoc.go","structpara.go","structtext.go","structdrawing.go","structtable.go","structrun.go","apirun.go","apipara.go","apitable.go","apidrawing.go","apishape.go","apilink.go","media.go","link.go"],
 [("nil guards before optional parts","struct*.go api*.go")])
p("C08","Every node stays attached to its document",
 "Every paragraph, table cell, run and drawing that the library reads, builds or copies is attached to the document that contains it, so that adding links or images to it, rendering it as text and copying it resolve against that document. A copy made for another document is attached to that other document.",
 ["inputs","histories"],"every node kind, every nesting, every way of creating it",
 "One missing assignment affects only one node kind in one nesting; the tests never use nested or copied nodes.",
 RD+["apipara.go","apitext.go","apilink.go","apidrawing.go","apishape.go","apitable.go","docx.go","empty.go"],
 [("file back-pointer assignments","struct*.go api*.go")],[("file","owning document","Body, Paragraph, Run, Hyperlink.Run, Table*, Drawing, WPInline, WPAnchor, AGraphic*")])
p("C09","New links and images get fresh identities that resolve",
 "Adding a link or an image, or copying one from another document, allocates a relationship identifier greater than every identifier already present, records exactly one relationship with it, stores exactly that identifier in the added content, and leaves existing relationships as they were. For an image exactly one media part is stored under a name no other media part has, and the relationship targets that part. (Overflow of the counters is left out.)",
 ["inputs","histories"],"every opened document and every sequence of additions and copies",
 "Freshness is a statement about all prior histories, including identifiers that came from a file.",
 ["link.go","image.go","media.go","unpack.go","apilink.go","apidrawing.go","structdrawing.go","structdoc.go"],
 [("addLinkRelation/addImageRelation","link.go"),("addImage","image.go"),("rID recomputation","unpack.go")],
 [("rID","largest relationship number","docx.go"),("docRelation","relationship list","docx.go"),("mediaNameIdx","media name index","docx.go")])
p("C10","Saving writes every part and reports every failure",
 "A save that returns a nil error has written the document part, the relationships part, every media item under its own media path and every other file of the opened package or selected template under its own name, with their full contents, and has completed the archive. If any part cannot be opened, created, encoded or copied, or the archive cannot be completed, the save returns a non-nil error. (A failure to close a file that was only read is not a failure of the save.)",
 ["fault_sequences","inputs"],"every failure point of the destination writer and of the source files, every set of parts",
 "Tests write to a healthy in-memory buffer and do not inject faults.",
 ["docx.go","pack.go","media.go"],[("pack","pack.go"),("marshaller.WriteTo","pack.go"),("WriteTo","docx.go")])
p("C11","The built-in template is a consistent package",
 "A document saved with the built-in template contains each template file under the path it has in a package, every internal relationship the library writes for a new document or the template declares resolves to a part that is written, and every part, including every image format whose size the library can determine, has a declared content type. Every style the library itself gives to content is defined in the template's styles, as a style for that kind of content.",
 ["configurations"],"every file of the embedded template, every relationship and every accepted image format",
 "The tests do not open the produced package with a consumer that checks these cross-references.",
 ["fs.go","theme.go","empty.go","docx.go","structdoc.go","xml/default/[Content_Types].xml","xml/default/_rels/.rels"],
 [("DefaultTemplateFilesList","fs.go"),("go:embed","fs.go"),("initial relationships","empty.go docx.go structdoc.go")])
p("C12","Every namespace prefix written is declared",
 "In every part the library writes, each element or attribute prefix is bound to its namespace by the element itself or an enclosing one, for documents built from scratch, opened, split or loaded, and whatever optional attributes were absent in the source.",
 ["inputs","programs"],"every tree of element values the API or the reader can produce",
 "Whether the declaring attribute is written depends on which element values occur on the path to the root; tests cover few trees.",
 RD+["docx.go","empty.go","unpack.go","apidrawing.go","apishape.go"],[("xmlns:* attribute fields and their initialisation","struct*.go, docx.go, empty.go, unpack.go")])
p("C13","Copying operations leave their source untouched",
 "Appending one document to another, splitting a document and merging texts do not change the source document or paragraph: its lists, texts, properties, relationships, media and counters are the same afterwards, and the results do not share a growable list with the source.",
 ["inputs","histories"],"every source document",
 "A test would have to compare the complete source before and after for every document shape.",
 ["structdoc.go","structtext.go","structdrawing.go"],[("copymedia","structdoc.go structdrawing.go"),("MergeText","structtext.go"),("SplitByParagraph/AppendFile","structdoc.go")])
p("C14","Documents are isolated from one another",
 "The library keeps no mutable state outside documents: no operation on one document, in any order or goroutine, alters package-level data or another document that was not passed to it; property nodes shared by documented shallow copies (merging, appending, splitting) are excepted.",
 ["schedules","histories"],"every interleaving of operations on distinct documents",
 "Quantifies over all schedules of independent users; the tests are single-threaded with one document.",
 ["fs.go","link.go","docx.go","all *.go"],[("package variables are only read","*.go")])
p("C15","Named counters never repeat a value under concurrency",
 "Concurrent requests for the next number of a named counter of one document each get a different number, counting up by one per name without gaps, and the counter table is only touched under its lock, which is released on every path.",
 ["schedules"],"every interleaving of calls",
 "The tests call it from one goroutine only.",
 ["id.go","docx.go"],[("slowIDsMu around slowIDs","id.go")],[("slowIDs","per-name counter","docx.go"),("slowIDsMu","its lock","docx.go")])
p("C16","Drawing-dropping operations remove exactly what they name",
 "Dropping canvases, shapes, groups, their unions, or drawings without a picture removes a drawing from a run if and only if it is of the named kind, wherever it is inline or anchored and whichever parts of it are absent, in every run that is the paragraph's own child and every paragraph and table cell paragraph of the body. All other content stays, once and in order. A drawing counts as without a picture when it has neither an inline nor an anchored part, or when one it has lacks a picture.",
 ["inputs"],"every combination of absent and present drawing parts in every position",
 "The truth table over inline/anchor, graphic, data and kind is far larger than any test; no test calls these operations.",
 ["structpara.go","structdoc.go"],[("Drop* methods","structpara.go"),("DropDrawingOf","structdoc.go")])
p("C17","Keep-filters keep exactly the named kinds",
 "Keeping named kinds of elements in a body, paragraph or run leaves exactly the items whose kind is named, each once and in the original order, for any list of names.",
 ["inputs"],"every item list, every name list",
 "No test calls them; the property quantifies over all lists.",
 ["structdoc.go","structpara.go","structrun.go"],[("KeepElements","structdoc.go structpara.go structrun.go")])
p("C18","Splitting and appending lose nothing",
 "Splitting passes every body item, in order and exactly once, into exactly one of the resulting documents, starting a new one exactly at each separator paragraph that is not first; appending adds every body item of the source, in order and once, after the existing ones. Inside copied items every table row, cell, paragraph, run and other child is carried over once and in order, the only exception being content that refers to a relationship or media item that does not exist.",
 ["inputs"],"every body, every separator predicate",
 "Holds for all item sequences and predicates; no test splits or appends.",
 ["structdoc.go","structdrawing.go"],[("SplitByParagraph, AppendFile, copymedia","structdoc.go structdrawing.go")])
p("C19","Merging texts preserves the text",
 "Merging run texts yields a paragraph whose texts, tabs, breaks, drawings and other children, read in order, are those of the original: texts are only joined with adjacent texts, nothing is lost, duplicated or moved across another item. Runs are joined only when adjacent and the rule allows it; a run keeps its properties and instruction text. The original paragraph is left as it was. (The rule only looks at the runs.)",
 ["inputs"],"every sequence of runs and other children, every merge rule",
 "Depends on the run sequence and the rule's answers; tests merge one short paragraph.",
 ["structtext.go"],[("MergeText","structtext.go")])
p("C20","The media index and the media list agree",
 "At all times after opening, loading, splitting or adding, looking a media name up gives the media item stored under that name, and an unknown name gives none: each stored item is indexed under its own name at its own position and no position changes afterwards. (Names within a package are distinct.)",
 ["histories","inputs"],"every history of media additions",
 "An invariant over histories; tests check one lookup.",
 ["media.go","unpack.go","docx.go"],[("addMedia, parseMedia, LoadBodyItems","media.go unpack.go docx.go")],[("mediaNameIdx","name to position","docx.go"),("media","media list","docx.go")])
p("C21","Everything opened is closed",
 "Every archive entry and template file the library opens for reading while opening or saving a document is closed on every path, including paths that return an error.",
 ["fault_sequences"],"every path through opening and saving, including every failure path",
 "Needs a failure at each step and a way to observe handles; tests do neither.",
 ["unpack.go","pack.go"],[("Close/defer Close","unpack.go pack.go")])
p("C22","Formatting calls set exactly what they name",
 "Each formatting call on a run, paragraph, table, row, cell or drawing stores exactly the given values in the property it names, leaves every other existing property and all content unchanged, and returns its receiver where it is chainable.",
 ["inputs","histories"],"every prior state of the element and every argument value",
 "Preservation of the other properties quantifies over every prior state; the tests build fresh elements and only compare a few outputs.",
 ["apirun.go","apipara.go","apitable.go","apidrawing.go"],[("setter methods","apirun.go apipara.go apitable.go apidrawing.go")])
p("C23","Reference lookups answer from the relationship list",
 "Looking up the target of a relationship identifier, or the identifier of a target, returns the matching entry of the document's relationship list without changing the document, and reports a documented not-found error when, and only when, there is no match. Iterating over relationships visits every one in order until the visitor stops.",
 ["inputs"],"every relationship list, every key",
 "Quantifies over all lists and keys.",
 ["link.go","apirel.go"],[("ReferTarget, ReferID, RangeRelationships","link.go apirel.go")])
p("C24","Table building produces the requested grid",
 "Adding a table with given numbers of rows and columns, or given row heights and column widths, produces exactly that many rows, each with exactly that many distinct, non-nil cells, and carries each given height, width and border colour to the row, column and border it is given for; missing colours get the default, sizes that are zero or negative count as not given, and the caller's arguments are not modified.",
 ["inputs"],"every row and column count, every list of sizes, every combination of colours",
 "Quantifies over sizes and argument values; tests build one or two tables.",
 ["apitable.go"],[("AddTable, AddTableTwips, applyDefault","apitable.go")])
p("C25","Text is read completely",
 "The text of a text element is the concatenation of all its character data, that inside nested elements included, however comments, CDATA sections, processing instructions or nested elements break it up.",
 ["inputs"],"every way of splitting the character data",
 "The tests only have unbroken character data.",
 ["structtext.go"],[("Text.UnmarshalXML","structtext.go")])
p("C26","Opening terminates on every input",
 "Every loop that reads from the input consumes input on each round and stops at the end of the input or on an error, and every other loop in the library is bounded by the length of a list fixed when the loop starts, or advances through its list.",
 ["inputs"],"every input and every list length",
 "Termination for all inputs cannot be sampled.",
 RD+["unpack.go","structdoc.go"],[("for/Token loops with io.EOF exit","struct*.go"),("range loops","*.go")])
p("C27","Number parsing follows one rule",
 "Number attributes are read as decimal integers of the full platform width; a decimal fraction is truncated toward zero; on/off words count as 1 and 0; anything else that does not begin with an integer is an error that the caller can tell from success.",
 ["inputs"],"every attribute string",
 "The set of strings is infinite and the fallback branches are not exercised by tests.",
 ["helper.go"],[("GetInt, GetInt64","helper.go")])
p("C28","Opening routes each package part to the right place",
 "When a package is opened, the main document part and its relationships part are decoded, every file under the media folder becomes a media item named by the rest of its path and holding all its bytes, every other file is remembered for saving under its exact name, and no file is treated twice or lost, in any order of entries.",
 ["inputs"],"every set and order of package entries",
 "Order and naming of entries vary per producer; tests open few packages.",
 ["unpack.go"],[("unpack","unpack.go"),("parseMedia","unpack.go")])
p("C29","Text rendering shows every child once, in order",
 "Rendering a paragraph as text emits, for each child in document order, exactly its own text: texts verbatim, a tab or newline for tabs and breaks, link text with its resolved target (or its identifier when unresolvable), and drawings in their own notation; nothing is emitted twice or reordered, and rendering changes nothing. Rendering a table shows the first paragraph of every cell, row by row.",
 ["inputs"],"every child sequence",
 "Quantifies over sequences; tests render few paragraphs.",
 ["structpara.go","structdrawing.go","structtable.go"],[("Paragraph.String","structpara.go"),("WPInline.String, WPAnchor.String","structdrawing.go")])
p("C30","Looking at a document does not change it",
 "Saving a document, rendering any part of it as text, looking up a relationship target or a media item, and judging runs or paragraphs with the library's own merge and split rules leave the document exactly as it was: no field, list element, map entry, counter or package-level value that existed before the call is written, removed, reordered, or extended in place. Doing it again, before or after other calls, therefore gives the same result.",
 ["inputs","histories"],"every document, every number and order of rendering, look-up, comparing and saving calls",
 "A stray write changes what a later call sees; the tests render or save each document once and do not compare the document before and after.",
 ["structpara.go","structtable.go","structdrawing.go","docx.go","pack.go","empty.go","link.go","media.go","structdoc.go","structtext.go"],[("String methods","structpara.go structtable.go structdrawing.go structrun.go"),("Docx.WriteTo, Docx.Read, pack","docx.go pack.go"),("ReferTarget, Media","link.go media.go"),("MergeSamePropRuns, MergeAllRuns, SplitDocxByPlainTextRegex","structtext.go structdoc.go")])
p("C31","The same calls give the same document",
 "What the library produces depends only on the documents and arguments it is given: no clock, random source, environment, process identity, address, goroutine schedule or map iteration order decides any content, identifier, name, order or result; saving an unchanged document again writes the same bytes, with its parts in the same order.",
 ["inputs","schedules"],"every sequence of calls, every run of the process",
 "Differences between runs show up only by chance or in another environment; a test in one process sees one of them.",
 ["docx.go","pack.go","structpara.go","theme.go","media.go"],[("every function of the library","*.go")])
p("C32","Added content carries what it was asked for",
 "The item a building call adds holds exactly what the call was given. A text is spelt out by the items of its run, in order: every newline of the text is one plain line break, every tab one tab, and everything between them one text item holding it unchanged (nothing for an empty stretch). A link shows the text given, once, in the style for links, which is never empty. A page break is a break of the page kind; an added tab is one tab; a new paragraph is empty. A shape has the width and height given, both as its extent and in its geometry, its name begins with the name given, and its drawing mode, preset geometry and outline are those given. A picture has the same extent in both places and refers to an image. Inline calls make inline drawings and anchor calls anchored ones, with the content and content address of their kind only. A3 and A4 pages have the dimensions of those formats.",
 ["inputs"],"every text, link, name, size, mode, geometry, outline and picture, on every path of the building calls",
 "Texts and parameters are unbounded; the tests build a few fixed paragraphs and shapes and look at the XML of one of them.",
 ["apitext.go","apilink.go","apipara.go","apirun.go","apishape.go","apidrawing.go","theme.go"],[("AddText, AddTab","apitext.go"),("AddLink","apilink.go"),("AddInlineShape, AddAnchorShape","apishape.go"),("AddInlineDrawing, AddAnchorDrawing","apidrawing.go"),("WithA3Page, WithA4Page","theme.go")])
p("C33","Merge rules join only runs with equal properties",
 "The merge rule for same properties says yes exactly when both runs exist and their properties are the same, that is both missing, or equal in every property and in every field of every property; the rule for named properties does so for each property it is given the name of, ignoring names that are not those of a property. Both say no as soon as one differs, whatever the order, number and position of the differing property. The rule for all runs always says yes.",
 ["inputs"],"every pair of runs, every combination of present, absent, equal and differing properties, every list of names",
 "There are thousands of combinations of property presence and value; the tests compare a few runs.",
 ["structtext.go"],[("MergeSamePropRuns, MergeSamePropRunsOf","structtext.go")])
p("C34","Saving reports how many bytes it wrote",
 "WriteTo returns the number of bytes the writer it was given has accepted, as io.WriterTo asks: all bytes of the package when it succeeds, and those accepted before the failure when it fails; never a made-up or stale count.",
 ["inputs","fault_sequences"],"every document, every writer and every point at which it fails",
 "Tests ignore the count, and use a buffer that never fails or writes short.",
 ["docx.go"],[("WriteTo","docx.go")])
p("C35","The pattern rule judges what a paragraph shows",
 "The separator rule made from a pattern says yes to a paragraph exactly when the pattern matches the paragraph's rendered text (Paragraph.String) as a whole: not a part, a trimmed or changed form, or single runs of it, and whatever the paragraph contains.",
 ["inputs"],"every pattern, every paragraph",
 "Patterns and paragraphs are unbounded; the tests split one document with one pattern.",
 ["structdoc.go","structpara.go"],[("SplitDocxByPlainTextRegex","structdoc.go")])
p("C36","Every drawing has a number of its own",
 "The number (wp:docPr id) of every drawing the library adds to a document or copies into it is the next number of that document's own drawing counter, taken for this drawing alone. The counter only counts up, and opening a package raises it to the highest number among the drawings read. So no two drawings of a document that was built, opened, appended to or split off have the same number, unless the input already had them twice. (Overflow of the counter is left out.)",
 ["inputs"],"every sequence of adding, appending and splitting calls; every number found in a package",
 "Tests build one or two drawings; clashes need particular mixes of kinds, sources and numbers.",
 ["apidrawing.go","apishape.go","structdrawing.go","id.go","unpack.go","docx.go"],[("AddInlineDrawing, AddAnchorDrawing","apidrawing.go"),("AddInlineShape, AddAnchorShape","apishape.go"),("copymedia, WPInline.UnmarshalXML, WPAnchor.UnmarshalXML","structdrawing.go")])
p("C37","Selecting a template selects exactly it",
 "After a template was selected, the document's template name, file list and file source are exactly those given, whatever was selected or remembered from an opened package before; nothing else of the document has changed, and the call returns the document.",
 ["inputs","histories"],"every name, list and source, after every history of the document",
 "Tests select one template on new documents; what was there before differs with every history.",
 ["theme.go"],[("UseTemplate","theme.go")])
p("C40","Built text reads back as given",
 "Rendering a paragraph to which a text was added gives back exactly that text, for every string: newlines, tabs, blanks and all other characters are the same, in the same order and number.",
 ["inputs"],"every string",
 "Infinite input set; the tests try a few strings.",
 ["apitext.go","structpara.go"],[("AddText","apitext.go"),("Paragraph.String","structpara.go")])
p("C41","Inserted images keep their aspect ratio within the page",
 "The extent written for an inserted picture, in both places that hold it, is positive in width and at most as wide as the text of an A4 page, and its height is that width times the picture's height over its width, rounded only once all multiplications are done, for every size of up to 32 bits in both directions.",
 ["inputs"],"every width and height",
 "Arithmetic over all sizes; the tests insert one picture.",
 ["apidrawing.go","structdrawing.go"],[("scaling arithmetic","apidrawing.go"),("A4_EMU_MAX_WIDTH","structdrawing.go")])
p("C42","Opening sizes nothing by a number the input merely claims",
 "While a package is opened, nothing is made of a size, and no loop that consumes no input makes a number of rounds, that is taken from a number the input merely states (an attribute, the uncompressed size of a zip entry, a declared count): such sizes are made of constants and of the lengths of what has really been read, or are limited by a constant on the way. (How deep elements nest is the input's business.)",
 ["inputs"],"every package and every number in it",
 "The numbers that hurt are the hostile ones, which no test document states.",
 ["unpack.go","structrun.go","structtable.go","docx.go"],[("make, Grow, Repeat while opening","unpack.go"),("counting loops of the readers","struct*.go")])
p("C43","What is written follows the order and the requirements of the schema",
 "In everything the library writes, the children a node holds in places of their own come in the order ECMA-376 gives them, required attributes are present whatever their value, optional attributes whose type has no empty value are left out rather than written empty, elements that were never set are not written as empty ones the schema does not allow, constants the library itself writes are values of their attribute, and the drawings, pictures, shapes and tables made by building calls have every part the schema requires. (The order of lists callers fill, values callers hand in, and what was invalid or is not supported when a document is read are not the library's.)",
 ["inputs","histories"],"every document",
 "Word processors reject documents over details of one element; the tests compare a few strings and read them back with the same code.",
 RD,[("order and tags of struct fields","struct*.go"),("nodes made by building calls","api*.go"),("APrstGeom.MarshalXML","structdrawing.go")])
p("C44","A switch that is off stays off, and one that is on stays on",
 "On/off elements (bold, italic, strike, and the line-breaking switches of paragraphs) that are read are written back in the same position: one that is off stays off, one that is on stays on, one that gives no position, which means on, stays on, and none is dropped or written with an empty position.",
 ["inputs"],"every such element with every position",
 "The usual documents only contain switches that are on; off ones override styles and are rare.",
 RD,[("Bold, Italic, Strike","structeffects.go"),("RunProperties reader","structrun.go"),("ParagraphProperties reader","structpara.go")])
p("C45","Numbers that were not given keep their meaning",
 "Where a numeric attribute is absent from what is read, and its absence means something other than zero, what is written back still means that: attributes that are always written say the value their absence stands for (text insets, column space, tile scale), and those whose absence defers to another attribute (the flags of a table look) are not written.",
 ["inputs"],"every element with every subset of its attributes",
 "The fields are plain numbers that start out as zero; the tests give every attribute.",
 ["structshape.go","structsect.go","structtable.go"],[("WPSBodyPr, ATile","structshape.go"),("Cols","structsect.go"),("WTableLook","structtable.go")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

#!/usr/bin/env python3
"""Writes MANIFEST.json from the claims below; unclaimed properties go to not_applicable with their reason."""
import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
T='path-sensitive abstract interpretation of the Go SSA'
claims={
 'C01':(T+': attribute-to-field transfer of every reader against the writer\'s struct tags','Every path of every reader is enumerated abstractly; loops are widened to an inductive state. Trusted: the x/tools SSA builder, the models of encoding/xml and strconv, tree-shaped ownership of decoded values.'),
 'C02':(T+': child-to-slot transfer of every reader against the writer\'s struct tags','As C01; children held in interface slots are judged by a frozen table of slot kinds.'),
 'C03':(T+': transfer of content lists: reader rounds append what they decoded, everything else only extends lists at their end','Every path of every reader, builder and other entry point outside copiers and filters; order within copies is C18/C19.'),
 'C04':(T+': typestate of the decoder depth','Every decoder step on every path; trusted: the documented contracts of Token, Skip, DecodeElement and UnmarshalXML.'),
 'C05':(T+': dataflow of error results to the result of the opening entry points','Every error-returning call reachable from opening, on every path.'),
 'C25':(T+': accumulation of character data in the text reader','Every path of readers with a chardata slot.'),
 'C26':(T+': ranking argument per loop path','Every path round every loop of the library; termination of standard library calls is trusted.'),
 'C08':(T+': ownership of every object handed on by readers, builders and copiers','Every object allocated on every path of every entry point; lists held in interface slots are judged by a frozen table of slot kinds. Trusted: tree-shaped ownership of decoded values.'),
 'C09':(T+': provenance of identifiers, names, targets and bytes of added relationships and media','Every path of every entry point. Counter overflow is outside the model.'),
 'C20':(T+': pairing invariant between stores to the media list and to its index','Every path of every entry point; names are assumed distinct as the package format requires.'),
 'C10':(T+': error dataflow of saving, and coverage of every part by completed traversals','Every path of Docx.WriteTo, WriteTo and MarshalXML; the contracts of zip.Writer, io.Copy and xml.Encoder are trusted.'),
 'C21':(T+': typestate of everything opened for reading','Every path of every entry point.'),
 'C28':(T+': classification of archive entries per round of the opening loop','Every path of one round, plus the exits of the loop; archive/zip is trusted.'),
 'C13':(T+': effect analysis of copying operations on what hangs off the source','Every write on every path of the copying operations and everything they call.'),
 'C14':(T+': effect and aliasing analysis of package-level data and shared lists','Every write on every path of every entry point.'),
 'C15':(T+': lockset over the counter table, value numbering of the increment','Every access on every path of every entry point; the mutex contract is trusted.'),
 'C22':(T+': value written to each property by the formatting calls, everything else left as it was','Every path of every formatting call; which call names which property is a frozen table confirmed against their documentation.'),
 'C24':(T+': lists built by counting loops: length, distinctness and provenance of each element','Every path of the table builders; row and column counts are taken as given.'),
 'C23':(T+': traversal and transfer of the relationship look-ups','Every path of the look-ups and of the iteration.'),
 'C06':(T+': discharge of every panic obligation reached while opening','Every instruction that can panic on every path of Parse and of every reader; trusted: foreign calls that report no error deliver a result, archive/zip and encoding/xml do not panic.'),
 'C07':(T+': discharge of every panic obligation of every operation, under document invariants established at every store','As C06 for every other entry point; reflective calls are judged by the declared types. Counts given by callers are taken as non-negative, receivers and callbacks as non-nil.'),
 'C16':(T+': truth table of the dropping calls over their loop rounds','Every path of every round of every dropping call; runs inside hyperlinks are not entered, as documented.'),
 'C17':(T+': what a filtering round keeps, against the name table it builds','Every path of every round of the keeping calls.'),
 'C11':(T+': evaluation of the file list, the relationships, the content types and the styles of new documents',"Every file, relationship and picture format a new document can be given, evaluated from the source and from the embedded template; the content types that belong to relationship types and formats are a frozen table (ECMA-376)."),
 'C18':(T+': field-by-field transfer of copies; one counterpart per element of every copied list; the hand-over of items between the documents of a split','Every path of every copier, of AppendFile and of SplitByParagraph. That a relationship or media item is missing is taken from the look-ups on the path (C23, C20). The separator is assumed to leave the documents as they are.'),
 'C12':('query over the type graph of written elements, and '+T+': declaring attributes of every value handed on','Every element the struct tags can produce; every value of a declaring type allocated, copied or decoded on every path of every entry point. Documents built by hand as struct literals outside the library are not covered; a source that binds a usual prefix to another namespace is taken at its word.'),
 'C19':(T+': conservation law of the joining loops, checked on every way through a round','Every path of every method that merges the runs of a paragraph. The rule handed in is assumed not to change the runs it compares; texts and lists are assumed tree-shaped.'),
 'C29':(T+': decomposition of every rendered text into literals, values and loops','Every path of the String methods of paragraphs, tables and drawings; the contracts of strings.Builder, bytes.Buffer, fmt and strings.Join are trusted. The wording of the notation of drawings is only checked for its form.'),
 'C30':(T+': effect analysis of rendering, saving, look-ups and comparing rules','Every write on every path of every looking operation and everything it calls. Callbacks and writers handed in are assumed not to change the document; writes by encoding/xml while marshalling library values are covered through the MarshalXML methods.'),
 'C31':('query over every call of the SSA, and '+T+': what loops over maps carry from round to round','Every function and call of the library. Results of readers, writers and callbacks handed in, and the determinism of the standard library on given inputs, are trusted.'),
 'C33':(T+': evidence of agreement on every path that joins, of a difference on every path that separates','Every path of both rules, and every round of their loops over properties, names and fields. Trusted: reflect. Properties are compared by reflect, so two decoded properties holding pointers deeper down count as different.'),
 'C34':(T+' of the writers put in front of the caller\'s, and a query over the returns of the save','Every return of WriteTo, every path of the library\'s own writers. Trusted: archive/zip writes only through the writer it is given, nothing after Close.'),
 'C35':(T+': provenance of what the pattern is matched against and of the answer','Every path of the rule. That String renders the paragraph faithfully is C29\'s; regexp is trusted.'),
 'C36':(T+': provenance of every drawing number handed on; growth of the counter; sharing between copy and source','Every path of every building, copying and reading call. Known findings: drawings inside shapes, canvases and groups are shared with the source when copied; LoadBodyItems starts counting at 1. Only the drawings of the document part are looked at, as opening reads no other.'),
 'C37':(T+': final memory of every path of the call against its arguments','Every path of the selecting call. A list that is copied has to be copied in full.'),
 'C32':(T+': values of the added item in the memory of every path; transfer of the loops over the pieces of a text','Every path of the building calls and every round of their loops. Trusted: strings.Split. A text that is taken apart in another way than by splitting it (rune by rune, say) is not looked into; the evidence then counts texts_cut_otherwise. What belongs to which call is a frozen table confirmed against the documentation of the calls.'),
 'C40':(T+': composition of the spelling of added texts (C32) with the rendering of runs (C29)','Every path of AddText and every round of its loops, every path of Paragraph.String and of the loops over runs and their items. As in C32, a text that is taken apart in another way than by splitting it is not looked into. Other children of the paragraph are left to C29.'),
 'C41':(T+': normal form of the sizes written as monomials over the size found in the picture','Every path of both calls that insert a picture. Frozen: the text width of an A4 page in EMU. A height that rounds to zero for pictures over five million times as wide as high is not excluded. The size found is taken from the decoder of the image format.'),
 'C27':(T+': provenance of the value and error results of every number parser','The strconv/fmt contracts are trusted.'),
 'C42':(T+': provenance and limits of every size made, grown to or counted to on the paths of opening','Every allocation and every loop on every path of every function reached while a package is opened. Constants count up to 1 MiB, lengths of what is in memory count as read. The memory the standard library takes for its own buffers is trusted, and so is how deep elements nest.'),
 'C43':('query over the type graph of written elements against the frozen sequences, requirements and value lists of ECMA-376, and '+T+': constants stored into enumerated attributes, parts of the nodes building calls make','Every element the struct tags can produce, every constant stored on any path of any operation, every path of the calls that draw or make tables. Frozen: the sequences, required attributes and enumerations of the schema for the elements the library knows. Order in lists filled by callers is not judged, nor is what a document that is read lacks. Known finding: cells made without a paragraph.'),
 'C44':(T+': fate of every on/off element and of its w:val in the responsible reader; query over the struct tags','Every path of every reader of paragraph, run, table, row and cell properties. Frozen: which elements are switches. Known finding: iCs, whose exported field has no room for a position.'),
 'C45':(T+': value each numeric field starts from, followed back through the loops of its reader; query over the struct tags','Every numeric attribute of a frozen list of those whose absence does not mean zero. Other attributes count as meaning zero when absent.'),
}
na={}
checks=[];nal=[]
for p in props:
    i=p['id']
    if i in claims:
        t,n=claims[i]
        checks.append({'property':i,'quick_cmd':f'./run.sh {i}','thorough_cmd':f'./run.sh {i}','technique':t,'level':'other','level_note':n})
    else:
        nal.append({'property':i,'reason':na.get(i,'no check yet: the static rule for it is still being built')})
json.dump({'version':1,'setup_cmd':'cd tool && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o /dev/null .','checks':checks,'not_applicable':nal},open('/verif/MANIFEST.json','w'),indent=1)

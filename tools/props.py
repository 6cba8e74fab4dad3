#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/lib/xmlparse.rs"
T = "src/lib/xmltok.rs"
TI = "src/lib/xmltok_impl.rs"
R = "src/lib/xmlrole.rs"
W = "src/xmlwf/xmlwf.rs"
XF = "src/xmlwf/xmlfile.rs"
SP = "src/string_pool.rs"

PROPS = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, level="exploration", note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, level=level, note=note))

prop("C01", "Exactly the well-formed documents are accepted; others get the right error",
     "Every well-formed (and, with namespace processing, namespace-well-formed) document is accepted, and every other input is rejected. "
     "The error code of a rejection names the first thing that is wrong, and everything before it has been reported just as in a correct document.",
     ["inputs", "configurations"], "all byte sequences, with and without namespace processing, DTD processing and external entities",
     "The tests try a few hundred fixed documents; well-formedness is a property of all inputs and of the product of every construct with every context.",
     [P, R, T, TI], [("processors and prolog loop", P + " doProlog, doContent, prologProcessor, epilogProcessor"), ("grammar of declarations", R), ("tokenizer", TI)],
     "property-based testing: document model, single-fault injection, differential against libexpat")
prop("C02", "How the input is cut into pieces makes no difference",
     "A document delivered in any number of pieces of any size, by copying or through parser-owned buffers, including empty pieces and a separate empty final piece, leads to the same events, the same positions, the same verdict and the same error location as the document delivered at once. "
     "Only the boundaries between consecutive character-data (or default-handler) calls, and how much of the text directly before an error is still reported, may differ; junk after the root element that is malformed itself may be called either.",
     ["inputs", "schedules"], "all documents and all ways of cutting them and their external entities into calls",
     "The tests cut a few documents bytewise; the property quantifies over all cut points of all documents and mixes of delivery calls.",
     [P, TI], [("buffer management", P + " XML_Parse, XML_GetBuffer, XML_ParseBuffer"), ("partial tokens", TI), ("position tracking", P + " XML_GetCurrentByteIndex")],
     "property-based testing: metamorphic relation over random and exhaustive cut points")
prop("C03", "The encoding of the input makes no difference",
     "The same sequence of characters leads to the same events whether it is encoded in UTF-8, UTF-16 of either byte order, ISO-8859-1, US-ASCII or an encoding supplied by the unknown-encoding handler, and whether the encoding is announced by the caller, by a byte order mark, or by the declaration. "
     "Byte sequences that are not valid in the encoding are rejected.",
     ["inputs", "configurations"], "all documents and all encodings, announced in all supported ways",
     "The tests use a handful of encoded strings; each encoding has its own tokenizer instance and conversion tables, so that every construct must work in each.",
     [T, TI, P], [("encoding detection", T + " initScan"), ("conversion to UTF-8", T), ("unknown encodings", T + " XmlInitUnknownEncoding")],
     "property-based testing: document model transcoded, differential against libexpat")
prop("C04", "Elements and attributes are reported exactly as written",
     "Start and end events come for exactly the elements of the document, in document order and properly nested, with the names and the attribute names and values as written and in the order written. "
     "The number of attributes, their names and values and the length of names have no limit.",
     ["inputs"], "all documents; any number of attributes, any nesting, any name lengths",
     "The tests check small documents; hash tables, name pools and tag buffers only grow with inputs larger than those.",
     [P, SP], [("start and end tags", P + " doContent, storeAtts, storeRawNames"), ("attribute and element tables", P + " getAttributeId, getElementType")],
     "property-based testing: document model, differential against libexpat")
prop("C05", "Character data, CDATA, comments and PIs are reported with their exact content",
     "The concatenated character data of an element is exactly the text written, with character references and predefined entities replaced and every line end (CR, CR LF, LF) turned into a single line feed. "
     "CDATA section boundaries, comments and processing instructions are reported at their place with their exact content.",
     ["inputs"], "all character data in all contexts, all line-end conventions, all references to characters",
     "The tests use a few strings per construct; the text loops have special cases at brackets, line ends, buffer sizes and multi-byte characters that combine freely.",
     [P, TI], [("character data", P + " doContent, doCdataSection"), ("line ends", TI), ("PI and comment reporting", P + " reportProcessingInstruction, reportComment, normalizeLines")],
     "property-based testing: document model, exhaustive line-end strings, differential against libexpat")
prop("C06", "Attribute values are normalized and defaulted as the DTD says",
     "Attribute values arrive with references expanded, white space normalized, and, for attributes declared with another type than character data, leading, trailing and repeated spaces removed. "
     "Attributes declared with a default value that an element does not specify are added after the specified ones with that value, the first declaration of an attribute counts, and the specified-attribute count and the ID attribute index describe the result exactly.",
     ["inputs"], "all attribute lists, declarations and references in values",
     "The tests cover single declarations; the effect depends on the combination of declarations, order, types, entity contents and what was specified.",
     [P], [("attribute values", P + " storeAttributeValue, appendAttributeValue"), ("defaults", P + " storeAtts, defineAttribute")],
     "property-based testing: document model, differential against libexpat")
prop("C07", "Namespace names are resolved by the innermost declaration in scope",
     "With namespace processing every element and attribute name is reported as its namespace name, separator and local name (and prefix when asked for), by the declarations in scope; namespace declarations are reported before the start and, in reverse order, after the end of the element that carries them. "
     "Undeclared prefixes, reserved names and prefixes, undeclaring of prefixes and attributes that become equal are rejected.",
     ["inputs", "configurations"], "all nestings of declarations, all prefixes and namespace names, all separators, with and without prefixes",
     "The tests have a few documents; bindings are kept in recycled lists and buffers whose state depends on the history of declarations.",
     [P], [("bindings", P + " addBinding, freeBindings, storeAtts"), ("names", P + " setElementTypePrefix, getAttributeId")],
     "property-based testing: document model, differential against libexpat")
prop("C08", "Internal entities are replaced by their text wherever they may be referenced",
     "A reference to an internal general entity has the effect of its replacement text at that place, in content and in attribute values, to any nesting depth, with the entity's elements complete in themselves. "
     "Recursive references, references to undeclared entities and elements that cross an entity's boundary are rejected.",
     ["inputs"], "all sets of entity declarations and references",
     "The tests have few nested entities; open-entity bookkeeping depends on nesting and position.",
     [P], [("internal entities", P + " processInternalEntity, internalEntityProcessor, storeEntityValue")],
     "property-based testing: document model, differential against libexpat")
prop("C09", "External and parameter entities are offered and used as configured",
     "Each reference to an external entity, and the external subset, is offered to the application exactly when the configuration calls for it, with the identifiers, base and a context from which a sub-parser continues with the same open entities and namespace declarations, and what the sub-parser reads has its full effect on the main document. "
     "Standalone and not-standalone rules, skipped entities, foreign DTDs, and conditional sections behave as documented.",
     ["inputs", "configurations"], "all DTDs, external entities and settings of parameter-entity processing",
     "The tests exercise single settings; effects depend on combinations of entity kinds, flags, handlers and standalone declarations.",
     [P, R], [("external entities", P + " XML_ExternalEntityParserCreate, getContext, setContext, doProlog"), ("conditional sections", P + " ignoreSectionProcessor, " + R)],
     "property-based testing: document model, differential against libexpat")
prop("C10", "Declarations are reported with exactly what they declare",
     "Every declaration that is read (XML and text declaration, document type, element type with its content model, attribute, entity, unparsed entity and notation) is reported once, in order, with its names, types, values, identifiers and base exactly as declared, public identifiers normalized, and content models as a tree that mirrors the declaration.",
     ["inputs"], "all declarations with all notations, in the internal and external subset and through parameter entities",
     "The tests have one or two declarations of each kind; content models and attribute types are built up in shared scratch memory.",
     [P, R], [("declaration reporting", P + " doProlog"), ("content models", P + " build_model, nextScaffoldPart"), ("states", R)],
     "property-based testing: document model, differential against libexpat")
prop("C11", "The default handler receives exactly what no other handler takes",
     "When only a default handler is set, the concatenation of what it receives is the document, character for character. "
     "With other handlers set as well, it receives exactly the markup for which there is no handler, and passing the current event on from within any handler delivers exactly that event's source text.",
     ["inputs", "configurations"], "all documents and all subsets of handlers",
     "The tests check fixed strings for a few constructs; losslessness must hold for every construct, encoding and handler combination.",
     [P], [("default reporting", P + " reportDefault, XML_DefaultCurrent, doProlog")],
     "property-based testing: losslessness invariant, document model, differential against libexpat")
prop("C12", "Positions describe where in the document the current event is",
     "During every event the byte index and byte count delimit exactly the markup or text being reported (the outermost reference, inside an internal entity), the line and column numbers are those of that byte, and the input context is the surrounding document. "
     "After an error they point at the place of the error.",
     ["inputs", "schedules"], "all documents, encodings and ways of delivery",
     "The tests ask for positions in a few documents; positions depend on buffer moves, encodings, line ends across pieces and entity nesting.",
     [P, TI], [("positions", P + " XML_GetCurrentByteIndex, XML_GetCurrentByteCount, XML_GetCurrentLineNumber, XML_GetInputContext"), ("line counting", TI + " updatePosition")],
     "property-based testing: document model with source spans, differential against libexpat")
prop("C13", "Suspending and resuming changes nothing; stopping for good stops at once",
     "Whenever a handler suspends the parser and it is later resumed, any number of times, the events, positions and verdict are those of an uninterrupted parse. "
     "After a handler stops the parser for good only the documented closing events follow and the call fails with the abort error; the parsing status always tells which of these states the parser is in, and calls that do not fit the state are refused without effect.",
     ["inputs", "histories"], "all documents, all events at which a handler may stop or suspend, all sequences of such calls",
     "The tests suspend at a few chosen events; every event in every kind of entity is a suspension point with its own way of continuing.",
     [P], [("suspension", P + " XML_StopParser, XML_ResumeParser, doContent, doProlog, internalEntityProcessor, doCdataSection")],
     "property-based testing: metamorphic relation, exhaustive over suspension points, differential against libexpat")
prop("C14", "A reset parser behaves like a new one",
     "After a reset, whatever the parser has been through before (completed, failed, suspended or aborted documents, any declarations, encodings and settings), parsing a document gives the same result as with a newly created parser; the documented settings survive and all others are gone.",
     ["inputs", "histories"], "all pairs of earlier histories and following documents",
     "The tests reset after one or two simple documents; leftovers depend on what was parsed before.",
     [P], [("reset", P + " XML_ParserReset, parserInit, dtdReset")],
     "property-based testing: metamorphic relation over histories")
prop("C15", "Running out of memory is reported cleanly",
     "When any single allocation fails at any point, the current call reports that memory has run out (or still succeeds with the full, correct result), nothing reported before it differs from the run in which memory does not run out, and the parser can still be queried and freed. "
     "It never crashes, hangs, or delivers a wrong result.",
     ["fault_sequences", "inputs"], "every allocation of every parse, failing singly or from that point on",
     "The tests fail the first allocations of some scenarios; each allocation site in each state needs its own handling.",
     [P, SP, "src/fallible_rc.rs"], [("allocation failures", P), ("pools", SP), ("fallible allocation", "src/fallible_rc.rs")],
     "fault injection into every allocation of generated parses", level="fault_enumeration")
prop("C16", "Everything allocated is released exactly once",
     "When a parser and its sub-parsers are freed, in every state they may be in, all memory they obtained has been given back, and every encoding obtained from the application has been released exactly once.",
     ["inputs", "histories", "fault_sequences"], "all documents and histories ending in a free at any point",
     "The tests look for leaks in fixed scenarios only; leaks depend on where a parse ends.",
     [P], [("destruction", P + " XML_ParserFree, destroyBindings, dtdDestroy")],
     "property-based testing: allocation accounting over generated histories")
prop("C17", "No input and no sequence of calls makes the parser touch memory it must not",
     "Whatever bytes are parsed, in whatever pieces and with whatever documented sequence of calls, from handlers or outside, the parser never reads or writes outside its own and the caller's valid memory and never crashes.",
     ["inputs", "histories"], "all byte sequences and all sequences of calls",
     "The tests run a fixed list of inputs without memory checking; the code works on raw pointers throughout.",
     [P, TI, T, SP], [("raw pointer code", P), ("tokenizer", TI), ("string pools", SP)],
     "fuzzing of inputs and call sequences with AddressSanitizer and guard pages")
prop("C18", "The programming interface behaves as documented in any order of calls",
     "Any sequence of calls to the interface returns the documented values: configuration calls are accepted or refused according to the state of the parser, queries return what was set or parsed, arguments passed to handlers are those configured, and errors, versions and features are described consistently.",
     ["histories", "configurations"], "all sequences of interface calls, inside and outside handlers",
     "The tests check individual calls in one state each.",
     [P, "src/expat_h.rs"], [("interface functions", P), ("constants and types", "src/expat_h.rs")],
     "stateful property-based testing against a model of the interface, differential against libexpat")
prop("C19", "Which handlers are set does not influence what the others receive",
     "Any subset of handlers, set at the start or changed in the middle of a document, receives exactly the events it would receive if all handlers were set all the time.",
     ["inputs", "configurations", "histories"], "all documents, all subsets of handlers and all moments at which they change",
     "The tests set one or two handlers per document; there are half a million subsets.",
     [P], [("handler dispatch", P + " doContent, doProlog")],
     "property-based testing: metamorphic relation over handler subsets")
prop("C20", "Every character and byte sequence is classified as the standards say",
     "For every code point in every encoding, and every byte sequence that may stand for one, it is accepted in names, at the start of names, in text, attribute values, comments, processing instructions and public identifiers exactly as XML 1.0 (fourth edition) and the encoding's definition say, and is delivered unchanged.",
     ["inputs"], "all code points, all byte sequences of up to four bytes in UTF-8, all pairs of UTF-16 units, in all contexts",
     "The tests try a few dozen characters; the classification is in bit tables and hand-written decoders.",
     ["src/lib/nametab.rs", T, TI], [("name tables", "src/lib/nametab.rs"), ("byte types", T), ("validity of sequences", T + ", " + TI)],
     "exhaustive enumeration against tables generated from the standard's productions and libexpat")
prop("C21", "Sizes make no difference",
     "Names, values, texts, declarations, entity texts, content models, attribute counts, entity counts and nesting may have any size: results are exact across every internal growth and hashing threshold, and a document delivered at once takes time proportional to its size.",
     ["inputs"], "all sizes of all constructs, delivered in any pieces",
     "The tests have one or two long inputs; growth happens at sizes specific to each construct.",
     [P, SP], [("growth", P + " storeAtts, doContent, XML_GetBuffer"), ("pools", SP), ("hash tables", P)],
     "property-based testing over sizes with analytic expected results")
prop("C22", "xmlwf says of each file whether it is well-formed, and where it is not",
     "For every file the command reports nothing when it is well-formed and otherwise one line with the file name, the line and column of the error and its description, by the selected options (namespaces, external and parameter entities, standalone, encoding), whether the file is read in one piece, in blocks (-r) or from the standard input; system identifiers are resolved against the file that contains them, and an error inside an external entity is reported for its file and then for the reference. It stops at the first file that is not well-formed or cannot be read and then exits with 2; 0 means all were well-formed.",
     ["inputs", "configurations"], "all files and option combinations",
     "There are no tests of the command at all.",
     [W, XF, "src/xmlwf/readfilemap.rs", "src/xmlwf/codepage.rs"], [("options and diagnostics", W), ("file processing", XF)],
     "property-based testing: generated files and options against the reference library and a model of the output")
prop("C23", "xmlwf writes canonical forms that mean the same as the input",
     "With an output directory (-d) the command writes, for every well-formed input and for no other, a file of the same name: a canonical document in UTF-8, which when parsed gives the same elements, attributes (sorted by name), text and instructions, and which is its own canonical form; with -n one in which all names in namespaces have generated prefixes; with -N also the notations; with -c a copy of the input in UTF-8; with -m a list of all events with their positions.",
     ["inputs", "configurations"], "all well-formed documents and output modes",
     "There are no tests of the command at all.",
     [W], [("output", W + " startElement, characterData, metaStartElement")],
     "property-based testing: model of the output format, idempotence, round trip")
prop("C24", "The UTF-16 build reports the same as the UTF-8 build",
     "Built to deliver UTF-16 text, the library reports for every input the same events, positions, verdict and error as the UTF-8 build, with the same text.",
     ["inputs", "configurations"], "all inputs and configurations in both builds",
     "The tests are not run for this build; conversions and sizes differ throughout.",
     [P, T, "src/expat_external_h.rs"], [("character type", "src/expat_external_h.rs"), ("conversion", T)],
     "property-based testing: differential between the two builds and the reference")
prop("C25", "Parsers do not influence one another",
     "Any number of parsers used alternately, nested inside each other's handlers, or in different threads each give the results they give alone.",
     ["schedules", "histories"], "all interleavings of any number of parses",
     "The tests use one parser at a time.",
     [P], [("per-parser state", P), ("static tables", T)],
     "property-based testing: random interleavings of model documents")
prop("C27", "Deeply nested input is handled without failing",
     "Documents, entities, content models and conditional sections nested to any depth are processed correctly, and every call returns in time proportional to the work.",
     ["inputs"], "all nesting depths up to a hundred thousand and more",
     "The tests nest a handful of levels.",
     [P, R], [("nesting", P + " freeBindings, build_node, doContent")],
     "property-based testing over depth with analytic expected results")

def main():
    src = "".join(open(os.path.join(V, "harness/src/props", f)).read() for f in sorted(os.listdir(os.path.join(V, "harness/src/props"))))
    done = set(re.findall(r'id: "(C\d+)"', src))
    only = sys.argv[1:]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
            if p["id"] not in done:
                continue
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]},
            }, ensure_ascii=False) + "\n")
    checks = []
    for p in PROPS:
        if p["id"] not in done:
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": "bash check.sh %s quick" % p["id"],
            "thorough_cmd": "bash check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"],
            "level": p["level"],
            "level_note": p["note"] or "Exploration: holds on all generated cases (counted in the evidence file). Trusts the document model and, where it is compared with, the installed libexpat 2.6.1; differences between 2.2.9 and 2.6.1 are kept out of the comparison by generation.",
        })
    m = {
        "version": 1,
        "setup_cmd": "bash build.sh std",
        "checks": checks,
        "not_applicable": [],
        "notes": "All checks build /repo's working tree as a shared library (several variants) and drive it through its C interface; no hooks in /repo are needed. See DESIGN.md.",
    }
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(checks), "checks")
main()

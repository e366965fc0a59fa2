#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here so they stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, state, mechanism, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(meaning=m, where=w) for m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mechanism],
            observe_at=observe, hook_needed=None)))

MAPS = "v0/pkg/raml/*Map.go"
INT = "v0/internal/raml/"

prop("C01", "Ordered-map writes follow the insertion/replacement/deletion model",
 "For every collection type of the library, writing a key appends the entry at the end (removing an earlier entry with that key), replacing keeps the entry's position or, when asked to replace-if-present, does nothing for an absent key, deleting removes exactly that entry, and a conditional put with a nil value does nothing. Every other entry keeps its key, value and relative order, the length changes by exactly the number of entries added or removed, and each call returns the collection it was called on.",
 ["inputs", "histories"],
 "every one of the 21 collection types, every reachable content and order of the collection, every key and value",
 "Unit tests exercise 4 of the 21 generated collections with one to three fixed entries; the claim is over every content, position, key and value, and over the 17 generated copies that have no test at all.",
 [MAPS], [("entries in insertion order plus a lookup index", "impl*Map structs in " + MAPS)],
 [("ordered-map mutators", "Put, PutIfNotNil, ReplaceOrPut, ReplaceIfExists, Delete of every impl*Map")],
 ["public collection interfaces in package raml"])

prop("C02", "Ordered-map lookups and iteration agree with the stored entries",
 "For every collection type, looking a key up returns the value stored under it and reports presence exactly when an entry with that key exists; the reported position of a key is the position of its entry or -1 when absent; the entry at each position, the length and the optional lookup agree with that same content. Iteration calls the callback exactly once per entry, in insertion order, with that entry's key and value; none of these calls changes the collection, and a new collection is empty.",
 ["inputs", "histories"],
 "every one of the 21 collection types, every reachable content and order, every key and index in range",
 "Tests look at collections with at most a few entries in 4 of the 21 types; agreement of index, order and lookups must hold for every history of writes.",
 [MAPS], [("entries in insertion order plus a lookup index", "impl*Map structs in " + MAPS)],
 [("ordered-map observers", "New*Map, Get, GetOpt, At, Len, Has, IndexOf, ForEach of every impl*Map")],
 ["public collection interfaces in package raml"])

prop("C03", "Collections serialize completely, in order, in the chosen form",
 "Serializing a collection to YAML yields every entry exactly once, in insertion order, with its own key and value: as a sequence of one-entry mappings marked as an ordered map when ordered output is on (the default for a new collection), and as one plain mapping when it is off. JSON output is the array of entries in insertion order when ordered output is on and an object holding exactly the entries when it is off (keys of an any-keyed collection with the same text share one member); if an entry cannot be converted, the conversion error is returned instead of partial output.",
 ["inputs", "histories"],
 "every one of the 21 collection types, every content and order, both output forms",
 "Tests serialize fixed two-entry collections of 4 of the 21 types; completeness and order must hold for every length and for every type.",
 [MAPS], [("output form flag", "outOrder in every impl*Map")],
 [("collection serialization", "MarshalYAML, MarshalJSON, ToYAML, SerializeOrdered of every impl*Map")],
 ["MarshalYAML/MarshalJSON/ToYAML of the collection interfaces"])

prop("C04", "Type declaration properties: set, read, clear, and nothing else changes",
 "For every kind of type declaration, reading a property after setting it gives the value set, reading it after clearing it gives the absent or empty value, and replacing a collection property by nothing leaves an empty collection, never a missing one. Setting or clearing one property changes no other property of that declaration, and the call returns that same declaration.",
 ["inputs", "histories"],
 "all 16 type-declaration kinds, every property, every value, every prior state of the declaration",
 "No test touches any type declaration; the claim ranges over every property pair, value and prior state.",
 [INT + "x-gen-type-*.go", INT + "DataType.go", INT + "type-datatype-ext.go", INT + "in-components.go"],
 [("facet fields of a type declaration", INT + "x-gen-type-*.go, DataType.go, type-datatype-ext.go")],
 [("generated setters/unsetters/getters", INT + "x-gen-type-*.go")], ["public raml.*Type interfaces"])

prop("C05", "Document, library, example and XML properties: set, read, clear, frame",
 "For API documents, libraries, documentation entries, examples of every kind and XML settings, reading a property after setting it gives the value set, and reading it after clearing it gives the absent or empty value; replacing a collection by nothing leaves an empty collection. Setting or clearing one property changes no other property of that element, and the call returns that same element.",
 ["inputs", "histories"],
 "API document, library, documentation, XML settings and all 14 example kinds; every property, value and prior state",
 "No test touches these elements; the claim ranges over every property, value and prior state.",
 [INT + "APISpec.go", INT + "Library.go", INT + "Documentation.go", INT + "type-xml.go", INT + "x-gen-ex-*.go"],
 [("element fields", INT + "APISpec.go, Library.go, Documentation.go, type-xml.go, x-gen-ex-*.go")],
 [("setters/unsetters/getters", INT)], ["public raml interfaces"])

prop("C06", "New elements start empty with the RAML default values",
 "A newly built element of any kind has every optional property absent and every collection present and empty, reports its own kind and the matching built-in type name, and carries the RAML 1.0 defaults: required is true, minimum and maximum item counts are 0 and 2147483647, unique items is false, string minimum length is 0, file length bounds are 0 and 2147483647, additional properties are allowed and examples are strict. The public builder functions return an element of the kind their name says, and two built elements never share mutable state.",
 ["inputs", "histories"],
 "every constructor of the library; sharing over any two calls",
 "No test constructs any of these elements.",
 [INT, "v0/pkg/raml/rbuild/new.go", "v0/pkg/raml/rmeta"],
 [("initial field values", "New* constructors in " + INT)],
 [("constructors", INT + " New*; v0/pkg/raml/rbuild/new.go")], ["public raml interfaces and package rbuild"])

prop("C07", "Type declarations resolve to the right kind",
 "A type declaration given as text resolves to the built-in type of that name, to a union when it contains a bar, and otherwise to a custom type, keeping the text as its type; an empty declaration resolves to string and an included declaration to an include of that path (text that merely starts with \"!include \" is not covered). A declaration given as a mapping resolves by its first type or schema entry, otherwise to object when it has properties, otherwise to array when it has items, otherwise to string; multi-type sequences and any other form are rejected with an error.",
 ["inputs"],
 "every YAML node as a declaration, mappings of any length and entry order, every type name text",
 "No test resolves any declaration; the rule ranges over unbounded mappings and all texts.",
 [INT + "fn-sorting-hat-type.go", INT + "fn-sorting-hat-example.go", INT + "fn-sorting-hat-property.go"],
 [("kind of a declaration", INT + "DataType.go")],
 [("type sorting hat", INT + "fn-sorting-hat-type.go")], ["rparse.ParseApiDoc / ParseLibrary types, properties, items"])

prop("C08", "Parsing a type declaration stores each facet in its own property",
 "When a type declaration of any kind is parsed, each recognised facet sets exactly the property of that name to the value written, entries of the collection-valued facets are added in document order, a parenthesised key becomes an annotation, and every other key is kept as an extra facet under its own name with its value. No other property changes, the entries of the mapping are applied one after another in document order, and a facet value of the wrong YAML kind makes parsing fail with an error.",
 ["inputs"],
 "all 16 type-declaration kinds, mappings of any length, every key and every value node, any prior state of the declaration",
 "No test parses any type declaration; the claim is over all keys, values and mapping lengths.",
 [INT + "x-gen-type-*.go", INT + "DataType.go", INT + "type-datatype-ext.go", INT + "util-*.go", "v0/internal/util/assign"],
 [("facet fields of a type declaration", INT + "x-gen-type-*.go")],
 [("facet assignment", "assign/UnmarshalRAML in " + INT), ("value conversion", "v0/internal/util/assign")],
 ["public raml.*Type getters after parsing"])

prop("C09", "Parsing examples, XML settings and documentation keeps every entry",
 "Parsing an example written without a mapping takes the node as its value; written as a mapping, and parsing XML settings or a documentation entry, sets exactly the property each recognised key names, stores parenthesised example keys as annotations and keeps every other key with its value as an extra entry. Entries are applied in document order, no other property changes, and a value of the wrong YAML kind makes parsing fail with an error.",
 ["inputs"],
 "all 14 example kinds, XML settings, documentation entries; mappings of any length, every key and value node, any prior state",
 "No test parses any of these elements.",
 [INT + "x-gen-ex-*.go", INT + "type-xml.go", INT + "Documentation.go", INT + "util-ex-map.go"],
 [("element fields", INT + "x-gen-ex-*.go, type-xml.go, Documentation.go")],
 [("entry assignment", "assign/assignVal/UnmarshalRAML in " + INT)], ["public getters after parsing"])

prop("C10", "Parsing an API document or library stores each entry in its own section",
 "Parsing an API document or library puts each recognised root entry into the section of that name (schemas counting as types), parenthesised keys into annotations, keys starting with a slash into resources of an API document, and every other entry into the extra entries under its own key. Sections of named items receive their items in document order; entries are applied in document order, no other section changes, and a section of the wrong YAML kind makes parsing fail with an error. The parse entry points return exactly that document, an error for a source that cannot be read or is not YAML, and an empty library for an empty library source.",
 ["inputs"],
 "API documents and libraries of any length, every key and value node, any prior state",
 "No test parses a document; the claim is over all keys, values and document lengths.",
 [INT + "APISpec.go", INT + "Library.go", INT + "util-*.go", "v0/internal/util/assign", "v0/pkg/raml/rparse"],
 [("document sections", INT + "APISpec.go, Library.go")],
 [("root assignment", "assign/UnmarshalYAML in " + INT + "APISpec.go, Library.go"), ("parse entry points", "v0/pkg/raml/rparse")],
 ["rparse.ParseApiDoc, rparse.ParseLibrary"])

prop("C11", "Parsing never crashes",
 "Parsing any well-formed YAML tree as an API document, a library, a type declaration, an example, XML settings or a documentation entry either succeeds or returns an error; it never panics and always ends, whatever the keys, values, tags and nesting.",
 ["inputs"],
 "every well-formed YAML node tree, every key text including the empty one, every tag, every length",
 "No test parses anything; absence of panics is over all inputs.",
 [INT, "v0/internal/util/assign"], [("parsed node", "yaml.Node arguments")],
 [("unmarshalling", INT)], ["rparse.ParseApiDoc, rparse.ParseLibrary"])

prop("C12", "Writing a type declaration emits exactly the facets that are set",
 "Writing a type declaration of any kind emits its type, each facet that is set under that facet's own RAML name with that property's current value, each annotation and each extra facet (each of the two in its own order), and nothing else; facets that are not set, collections that are empty and facets equal to their RAML default are left out. A declaration with nothing but its type is written as the bare type, any other as a mapping, and writing changes nothing in the declaration. Taken for granted: no annotation or extra facet uses the name of a facet of that kind.",
 ["inputs", "histories"],
 "all 16 type-declaration kinds, every state of the declaration",
 "No test writes any type declaration; the claim is over every combination of set and unset facets.",
 [INT + "x-gen-type-*.go", INT + "DataType.go", INT + "type-datatype-ext.go", INT + "in-components.go"],
 [("facet fields of a type declaration", INT)],
 [("marshalling", "marshal/MarshalRAML/ToYAML in " + INT)], ["APISpec.WriteRAML output", "ToYAML of a type declaration"])

prop("C13", "Writing examples, XML settings and documentation emits what is set",
 "An example with no metadata is written as its bare value; with metadata it is written as a mapping with its name, description, value and a false strict flag where set, its annotations and its extra entries (each in their own order), and nothing else. XML settings and documentation entries are written as mappings of exactly the properties that are set plus the extra entries, and writing changes nothing in the element.",
 ["inputs", "histories"],
 "all 14 example kinds, XML settings, documentation entries, every state",
 "No test writes any of these elements.",
 [INT + "x-gen-ex-*.go", INT + "type-xml.go", INT + "Documentation.go"],
 [("element fields", INT)], [("marshalling", "MarshalRAML/ToYAML in " + INT)], ["ToYAML of the element"])

prop("C14", "Writing an API document or library emits every section that is set",
 "Writing an API document or library emits each section that is set or non-empty under its own RAML name with its current content, each annotation, each extra entry and, for an API document, the title and each resource under its own key, and nothing else; annotations, resources and extra entries keep their order. The output starts with the RAML 1.0 header line of that document kind, and a failure of the destination or of a conversion is returned as an error.",
 ["inputs", "histories", "fault_sequences"],
 "every state of an API document or library, every writer failure",
 "No test writes a document; the claim is over every combination of sections and every failing writer.",
 [INT + "APISpec.go", INT + "Library.go", "v0/pkg/raml/rmeta/headers.go", "v0/pkg/raml/rmod"],
 [("document sections", INT + "APISpec.go, Library.go")],
 [("document marshalling", "MarshalYAML/WriteRAML in " + INT)], ["WriteRAML output"])

prop("C15", "What is written parses back to the same properties",
 "Writing an element of any kind and parsing the result as the same kind of element gives an element with the same properties: every text, boolean, whole number, real (to ten significant digits), format and list of them is unchanged, every property that was not set has its default, untyped values, annotations and unknown entries come back under their own names as the YAML nodes they were written as, and nested elements and collections are parsed from the written form of exactly that element or collection. A written declaration whose type text names its kind is recognised as that kind again, and a written collection gives the same entries in the same order. (A bare example value that is itself a mapping is outside this: it reads as an expanded example. Counts are at most 2^63-1.)",
 ["inputs", "histories"],
 "every element kind, every combination of properties, every value of them",
 "No test round-trips anything; the claim ranges over all values.",
 [INT, "v0/internal/util/assign"], [("facet fields", INT)],
 [("marshal/assign pairs", INT)], ["ToYAML followed by UnmarshalRAML"])

prop("C16", "Format facets keep their text",
 "A number, integer or date format given as text, recognised or not, is kept with exactly that text: reading it as a string, writing it to YAML and decoding it from YAML give that same text. A format that is not text is rejected with an error and a failed decode leaves the previous format in place.",
 ["inputs"],
 "every format text and every YAML node",
 "No test touches formats; the claim is over all texts.",
 [INT + "enum-*.go", INT + "fn-sorting-hat-*-format.go"], [("format text", INT + "enum-*.go")],
 [("format parsing", INT + "fn-sorting-hat-*-format.go"), ("format decoding", INT + "enum-*.go UnmarshalYAML")],
 ["Format() of number, integer and datetime types"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
